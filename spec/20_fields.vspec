#! generated by gen.py
=== fn stratumv2::types::fixed::<U24 as PartialEq<u32>>::eq
ensures:
[C23:equal] r == (self.0 == (*other))
=== after stratumv2::types::fixed::<U24 as PartialEq<u32>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<u32> for U24 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &u32) -> bool { self.0 == (*other) } }

=== fn stratumv2::types::fixed::<u32 as PartialEq<U24>>::eq
ensures:
[C23:equal] r == ((*self) == other.0)
=== after stratumv2::types::fixed::<u32 as PartialEq<U24>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<U24> for u32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &U24) -> bool { (*self) == other.0 } }

=== fn stratumv2::types::fixed::<U256 as PartialEq<[u8;32]>>::eq
ensures:
[C23:equal] r == (self.0@ == (*other)@)
=== after stratumv2::types::fixed::<U256 as PartialEq<[u8;32]>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<[u8;32]> for U256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &[u8;32]) -> bool { self.0@ == (*other)@ } }

=== fn stratumv2::types::fixed::<[u8;32] as PartialEq<U256>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.0@)
=== after stratumv2::types::fixed::<[u8;32] as PartialEq<U256>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<U256> for [u8;32] { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &U256) -> bool { (*self)@ == other.0@ } }


=== fn stratumv2::types::bytes::<B0_31 as PartialEq<Vec<u8>>>::eq
ensures:
[C23:equal] r == (self.data@ == (*other)@)
=== after stratumv2::types::bytes::<B0_31 as PartialEq<Vec<u8>>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<Vec<u8>> for B0_31 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Vec<u8>) -> bool { self.data@ == (*other)@ } }

=== fn stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_31>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.data@)
=== after stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_31>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<B0_31> for Vec<u8> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &B0_31) -> bool { (*self)@ == other.data@ } }

=== type stratumv2::types::bytes::B0_31
derive- PartialEq, Eq
=== fn stratumv2::types::bytes::B0_31::new
ensures:
[accept] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() <= 31) ==> r is Ok
[reject] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() > 31) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn stratumv2::types::bytes::<Vec<u8> as From<B0_31>>::from
ensures:
[value] r == b.data
=== after stratumv2::types::bytes::<Vec<u8> as From<B0_31>>
impl vstd::std_specs::convert::FromSpecImpl<B0_31> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: B0_31) -> Vec<u8> { v.data } }
impl VInto<Vec<u8>> for B0_31 {
    open spec fn conv(self, u: Vec<u8>) -> bool { u == self.data }
    fn v_into(self) -> (r: Vec<u8>) { proof { let d = self.conv(arbitrary::<Vec<u8>>()); } <Vec<u8> as From<B0_31>>::from(self) }
}
=== impl stratumv2::types::bytes::<B0_31 as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![self.data@.len() as int as u8] + self.data@ }
open spec fn wf(&self) -> bool { self.length as int == self.data@.len() && self.data@.len() <= 31 }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::types::bytes::<B0_31 as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::types::bytes::<B0_31 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 1 && (s[0] as int) <= 31 && s.len() >= 1 + (s[0] as int) { Some(1 + (s[0] as int)) } else { None }
}
open spec fn denotes(s: Seq<u8>, v: B0_31) -> bool { v.data@ == s.subrange(1, 1 + (s[0] as int)) && v.length as int == (s[0] as int) && v.wf() }


=== fn stratumv2::types::bytes::<B0_32 as PartialEq<Vec<u8>>>::eq
ensures:
[C23:equal] r == (self.data@ == (*other)@)
=== after stratumv2::types::bytes::<B0_32 as PartialEq<Vec<u8>>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<Vec<u8>> for B0_32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Vec<u8>) -> bool { self.data@ == (*other)@ } }

=== fn stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_32>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.data@)
=== after stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_32>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<B0_32> for Vec<u8> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &B0_32) -> bool { (*self)@ == other.data@ } }

=== type stratumv2::types::bytes::B0_32
derive- PartialEq, Eq
=== fn stratumv2::types::bytes::B0_32::new
ensures:
[accept] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() <= 32) ==> r is Ok
[reject] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() > 32) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn stratumv2::types::bytes::<Vec<u8> as From<B0_32>>::from
ensures:
[value] r == b.data
=== after stratumv2::types::bytes::<Vec<u8> as From<B0_32>>
impl vstd::std_specs::convert::FromSpecImpl<B0_32> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: B0_32) -> Vec<u8> { v.data } }
impl VInto<Vec<u8>> for B0_32 {
    open spec fn conv(self, u: Vec<u8>) -> bool { u == self.data }
    fn v_into(self) -> (r: Vec<u8>) { proof { let d = self.conv(arbitrary::<Vec<u8>>()); } <Vec<u8> as From<B0_32>>::from(self) }
}
=== impl stratumv2::types::bytes::<B0_32 as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![self.data@.len() as int as u8] + self.data@ }
open spec fn wf(&self) -> bool { self.length as int == self.data@.len() && self.data@.len() <= 32 }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::types::bytes::<B0_32 as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::types::bytes::<B0_32 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 1 && (s[0] as int) <= 32 && s.len() >= 1 + (s[0] as int) { Some(1 + (s[0] as int)) } else { None }
}
open spec fn denotes(s: Seq<u8>, v: B0_32) -> bool { v.data@ == s.subrange(1, 1 + (s[0] as int)) && v.length as int == (s[0] as int) && v.wf() }


=== fn stratumv2::types::bytes::<B0_255 as PartialEq<Vec<u8>>>::eq
ensures:
[C23:equal] r == (self.data@ == (*other)@)
=== after stratumv2::types::bytes::<B0_255 as PartialEq<Vec<u8>>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<Vec<u8>> for B0_255 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Vec<u8>) -> bool { self.data@ == (*other)@ } }

=== fn stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_255>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.data@)
=== after stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_255>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<B0_255> for Vec<u8> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &B0_255) -> bool { (*self)@ == other.data@ } }

=== type stratumv2::types::bytes::B0_255
derive- PartialEq, Eq
=== fn stratumv2::types::bytes::B0_255::new
ensures:
[accept] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() <= 255) ==> r is Ok
[reject] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() > 255) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn stratumv2::types::bytes::<Vec<u8> as From<B0_255>>::from
ensures:
[value] r == b.data
=== after stratumv2::types::bytes::<Vec<u8> as From<B0_255>>
impl vstd::std_specs::convert::FromSpecImpl<B0_255> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: B0_255) -> Vec<u8> { v.data } }
impl VInto<Vec<u8>> for B0_255 {
    open spec fn conv(self, u: Vec<u8>) -> bool { u == self.data }
    fn v_into(self) -> (r: Vec<u8>) { proof { let d = self.conv(arbitrary::<Vec<u8>>()); } <Vec<u8> as From<B0_255>>::from(self) }
}
=== impl stratumv2::types::bytes::<B0_255 as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![self.data@.len() as int as u8] + self.data@ }
open spec fn wf(&self) -> bool { self.length as int == self.data@.len() && self.data@.len() <= 255 }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::types::bytes::<B0_255 as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::types::bytes::<B0_255 as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 1 && (s[0] as int) <= 255 && s.len() >= 1 + (s[0] as int) { Some(1 + (s[0] as int)) } else { None }
}
open spec fn denotes(s: Seq<u8>, v: B0_255) -> bool { v.data@ == s.subrange(1, 1 + (s[0] as int)) && v.length as int == (s[0] as int) && v.wf() }


=== fn stratumv2::types::bytes::<B0_64K as PartialEq<Vec<u8>>>::eq
ensures:
[C23:equal] r == (self.data@ == (*other)@)
=== after stratumv2::types::bytes::<B0_64K as PartialEq<Vec<u8>>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<Vec<u8>> for B0_64K { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Vec<u8>) -> bool { self.data@ == (*other)@ } }

=== fn stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_64K>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.data@)
=== after stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_64K>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<B0_64K> for Vec<u8> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &B0_64K) -> bool { (*self)@ == other.data@ } }

=== type stratumv2::types::bytes::B0_64K
derive- PartialEq, Eq
=== fn stratumv2::types::bytes::B0_64K::new
ensures:
[accept] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() <= 65535) ==> r is Ok
[reject] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() > 65535) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn stratumv2::types::bytes::<Vec<u8> as From<B0_64K>>::from
ensures:
[value] r == b.data
=== after stratumv2::types::bytes::<Vec<u8> as From<B0_64K>>
impl vstd::std_specs::convert::FromSpecImpl<B0_64K> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: B0_64K) -> Vec<u8> { v.data } }
impl VInto<Vec<u8>> for B0_64K {
    open spec fn conv(self, u: Vec<u8>) -> bool { u == self.data }
    fn v_into(self) -> (r: Vec<u8>) { proof { let d = self.conv(arbitrary::<Vec<u8>>()); } <Vec<u8> as From<B0_64K>>::from(self) }
}
=== impl stratumv2::types::bytes::<B0_64K as Serializable>
open spec fn enc(&self) -> Seq<u8> { le2(self.data@.len() as int) + self.data@ }
open spec fn wf(&self) -> bool { self.length as int == self.data@.len() && self.data@.len() <= 65535 }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::types::bytes::<B0_64K as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::types::bytes::<B0_64K as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 2 && un2(s) <= 65535 && s.len() >= 2 + un2(s) { Some(2 + un2(s)) } else { None }
}
open spec fn denotes(s: Seq<u8>, v: B0_64K) -> bool { v.data@ == s.subrange(2, 2 + un2(s)) && v.length as int == un2(s) && v.wf() }


=== fn stratumv2::types::bytes::<B0_16M as PartialEq<Vec<u8>>>::eq
ensures:
[C23:equal] r == (self.data@ == (*other)@)
=== after stratumv2::types::bytes::<B0_16M as PartialEq<Vec<u8>>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<Vec<u8>> for B0_16M { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Vec<u8>) -> bool { self.data@ == (*other)@ } }

=== fn stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_16M>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.data@)
=== after stratumv2::types::bytes::<Vec<u8> as PartialEq<B0_16M>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<B0_16M> for Vec<u8> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &B0_16M) -> bool { (*self)@ == other.data@ } }

=== type stratumv2::types::bytes::B0_16M
derive- PartialEq, Eq
=== fn stratumv2::types::bytes::B0_16M::new
ensures:
[accept] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() <= 16777215) ==> r is Ok
[reject] (forall|b: Vec<u8>| value.conv(b) ==> b@.len() > 16777215) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn stratumv2::types::bytes::<Vec<u8> as From<B0_16M>>::from
ensures:
[value] r == b.data
=== after stratumv2::types::bytes::<Vec<u8> as From<B0_16M>>
impl vstd::std_specs::convert::FromSpecImpl<B0_16M> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: B0_16M) -> Vec<u8> { v.data } }
impl VInto<Vec<u8>> for B0_16M {
    open spec fn conv(self, u: Vec<u8>) -> bool { u == self.data }
    fn v_into(self) -> (r: Vec<u8>) { proof { let d = self.conv(arbitrary::<Vec<u8>>()); } <Vec<u8> as From<B0_16M>>::from(self) }
}
=== impl stratumv2::types::bytes::<B0_16M as Serializable>
open spec fn enc(&self) -> Seq<u8> { le3(self.data@.len() as int) + self.data@ }
open spec fn wf(&self) -> bool { self.length.0 as int == self.data@.len() && self.data@.len() <= 16777215 }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::types::bytes::<B0_16M as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::types::bytes::<B0_16M as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 3 && un3(s) <= 16777215 && s.len() >= 3 + un3(s) { Some(3 + un3(s)) } else { None }
}
open spec fn denotes(s: Seq<u8>, v: B0_16M) -> bool { v.data@ == s.subrange(3, 3 + un3(s)) && v.length.0 as int == un3(s) && v.wf() }


=== fn stratumv2::types::strings::<STR0_32 as PartialEq<String>>::eq
ensures:
[C23:equal] r == (self.data@ == (*other)@)
=== after stratumv2::types::strings::<STR0_32 as PartialEq<String>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<String> for STR0_32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &String) -> bool { self.data@ == (*other)@ } }

=== fn stratumv2::types::strings::<String as PartialEq<STR0_32>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.data@)
=== after stratumv2::types::strings::<String as PartialEq<STR0_32>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<STR0_32> for String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &STR0_32) -> bool { (*self)@ == other.data@ } }

=== type stratumv2::types::strings::STR0_32
derive- PartialEq, Eq
=== fn stratumv2::types::strings::STR0_32::new
ensures:
[accept] (forall|s: String| value.conv(s) ==> sbytes(s).len() <= 32) ==> r is Ok
[reject] (forall|s: String| value.conv(s) ==> sbytes(s).len() > 32) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn stratumv2::types::strings::<String as From<STR0_32>>::from
ensures:
[value] r == s.data
=== after stratumv2::types::strings::<String as From<STR0_32>>
impl vstd::std_specs::convert::FromSpecImpl<STR0_32> for String { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: STR0_32) -> String { v.data } }
impl VInto<String> for STR0_32 {
    open spec fn conv(self, u: String) -> bool { u == self.data }
    fn v_into(self) -> (r: String) { proof { let d = self.conv(arbitrary::<String>()); } <String as From<STR0_32>>::from(self) }
}
=== impl stratumv2::types::strings::<STR0_32 as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![sbytes(self.data).len() as u8] + sbytes(self.data) }
open spec fn wf(&self) -> bool { self.length as int == sbytes(self.data).len() && self.length <= 32 }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::types::strings::<STR0_32 as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::types::strings::<STR0_32 as Deserializable>
#[verifier::opaque]
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 1 && s[0] <= 32 && s.len() >= 1 + s[0] && vstd::utf8::valid_utf8(s.subrange(1, 1 + s[0])) { Some(1 + s[0]) } else { None }
}
#[verifier::opaque]
open spec fn denotes(s: Seq<u8>, v: STR0_32) -> bool { sbytes(v.data) == s.subrange(1, 1 + s[0]) && v.length == s[0] && v.wf() }
=== fn stratumv2::types::strings::<STR0_32 as Deserializable>::deserialize
start:
reveal(<STR0_32 as Deserializable>::accepts); reveal(<STR0_32 as Deserializable>::denotes);
=== mod stratumv2::types::strings
/// what the users of STR0_32's decoder need to know without unfolding it
pub broadcast proof fn lemma_STR0_32_denotes(s: Seq<u8>, v: STR0_32)
    requires #[trigger] <STR0_32 as Deserializable>::denotes(s, v)
    ensures sbytes(v.data).len() == s[0], v.wf()
{ reveal(<STR0_32 as Deserializable>::denotes); }
pub broadcast proof fn lemma_STR0_32_accepts(s: Seq<u8>)
    ensures #[trigger] <STR0_32 as Deserializable>::accepts(s) is Some ==> 1 <= <STR0_32 as Deserializable>::accepts(s)->Some_0 <= s.len() && <STR0_32 as Deserializable>::accepts(s)->Some_0 == 1 + s[0]
{ reveal(<STR0_32 as Deserializable>::accepts); }


=== fn stratumv2::types::strings::<STR0_255 as PartialEq<String>>::eq
ensures:
[C23:equal] r == (self.data@ == (*other)@)
=== after stratumv2::types::strings::<STR0_255 as PartialEq<String>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<String> for STR0_255 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &String) -> bool { self.data@ == (*other)@ } }

=== fn stratumv2::types::strings::<String as PartialEq<STR0_255>>::eq
ensures:
[C23:equal] r == ((*self)@ == other.data@)
=== after stratumv2::types::strings::<String as PartialEq<STR0_255>>
impl vstd::std_specs::cmp::PartialEqSpecImpl<STR0_255> for String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &STR0_255) -> bool { (*self)@ == other.data@ } }

=== type stratumv2::types::strings::STR0_255
derive- PartialEq, Eq
=== fn stratumv2::types::strings::STR0_255::new
ensures:
[accept] (forall|s: String| value.conv(s) ==> sbytes(s).len() <= 255) ==> r is Ok
[reject] (forall|s: String| value.conv(s) ==> sbytes(s).len() > 255) ==> r is Err
[value] r is Ok ==> value.conv(r->Ok_0.data)
[wf] r is Ok ==> r->Ok_0.wf()
[error] r is Err ==> r->Err_0 is RequirementError
=== fn stratumv2::types::strings::<String as From<STR0_255>>::from
ensures:
[value] r == s.data
=== after stratumv2::types::strings::<String as From<STR0_255>>
impl vstd::std_specs::convert::FromSpecImpl<STR0_255> for String { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: STR0_255) -> String { v.data } }
impl VInto<String> for STR0_255 {
    open spec fn conv(self, u: String) -> bool { u == self.data }
    fn v_into(self) -> (r: String) { proof { let d = self.conv(arbitrary::<String>()); } <String as From<STR0_255>>::from(self) }
}
=== impl stratumv2::types::strings::<STR0_255 as Serializable>
open spec fn enc(&self) -> Seq<u8> { seq![sbytes(self.data).len() as u8] + sbytes(self.data) }
open spec fn wf(&self) -> bool { self.length as int == sbytes(self.data).len() && self.length <= 255 }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::types::strings::<STR0_255 as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
=== impl stratumv2::types::strings::<STR0_255 as Deserializable>
#[verifier::opaque]
open spec fn accepts(s: Seq<u8>) -> Option<int> {
    if s.len() >= 1 && s[0] <= 255 && s.len() >= 1 + s[0] && vstd::utf8::valid_utf8(s.subrange(1, 1 + s[0])) { Some(1 + s[0]) } else { None }
}
#[verifier::opaque]
open spec fn denotes(s: Seq<u8>, v: STR0_255) -> bool { sbytes(v.data) == s.subrange(1, 1 + s[0]) && v.length == s[0] && v.wf() }
=== fn stratumv2::types::strings::<STR0_255 as Deserializable>::deserialize
start:
reveal(<STR0_255 as Deserializable>::accepts); reveal(<STR0_255 as Deserializable>::denotes);
=== mod stratumv2::types::strings
/// what the users of STR0_255's decoder need to know without unfolding it
pub broadcast proof fn lemma_STR0_255_denotes(s: Seq<u8>, v: STR0_255)
    requires #[trigger] <STR0_255 as Deserializable>::denotes(s, v)
    ensures sbytes(v.data).len() == s[0], v.wf()
{ reveal(<STR0_255 as Deserializable>::denotes); }
pub broadcast proof fn lemma_STR0_255_accepts(s: Seq<u8>)
    ensures #[trigger] <STR0_255 as Deserializable>::accepts(s) is Some ==> 1 <= <STR0_255 as Deserializable>::accepts(s)->Some_0 <= s.len() && <STR0_255 as Deserializable>::accepts(s)->Some_0 == 1 + s[0]
{ reveal(<STR0_255 as Deserializable>::accepts); }
