=== root
// ---------------------------------------------------------------------------------------------
// Shims for std and stubs for the dependencies. Everything marked external_body here is an
// ASSUMED contract on code outside /repo (listed in the evidence as trusted_base).
// ---------------------------------------------------------------------------------------------
pub mod vshim {
    use vstd::prelude::*;

    // ---- little-endian encodings -------------------------------------------------------------
    pub open spec fn le2(v: int) -> Seq<u8> { seq![(v % 256) as u8, (v / 256 % 256) as u8] }
    pub open spec fn le3(v: int) -> Seq<u8> { seq![(v % 256) as u8, (v / 256 % 256) as u8, (v / 65536 % 256) as u8] }
    pub open spec fn le4(v: int) -> Seq<u8> {
        seq![(v % 256) as u8, (v / 256 % 256) as u8, (v / 65536 % 256) as u8, (v / 16777216 % 256) as u8]
    }
    pub open spec fn le8(v: int) -> Seq<u8> { le4(v % 4294967296) + le4(v / 4294967296) }
    pub open spec fn un2(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] as int }
    pub open spec fn un3(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] as int + 65536 * s[2] as int }
    pub open spec fn un4(s: Seq<u8>) -> int {
        s[0] as int + 256 * s[1] as int + 65536 * s[2] as int + 16777216 * s[3] as int
    }
    pub proof fn lemma_le2(v: int) requires 0 <= v < 65536 ensures un2(le2(v)) == v {}
    pub proof fn lemma_le3(v: int) requires 0 <= v < 16777216 ensures un3(le3(v)) == v {}
    pub proof fn lemma_le4(v: int) requires 0 <= v < 4294967296 ensures un4(le4(v)) == v {}
    pub proof fn lemma_un2(s: Seq<u8>) requires s.len() == 2 ensures le2(un2(s)) =~= s, 0 <= un2(s) < 65536 {}
    pub proof fn lemma_un3(s: Seq<u8>) requires s.len() == 3 ensures le3(un3(s)) =~= s, 0 <= un3(s) < 16777216 {
        let v = un3(s);
        let a = s[0] as int; let b = s[1] as int; let c = s[2] as int;
        assert(v == 256 * (b + 256 * c) + a);
        assert(v % 256 == a && v / 256 == b + 256 * c);
        assert((b + 256 * c) % 256 == b);
        assert(v / 65536 == c);
    }
    pub proof fn lemma_un4(s: Seq<u8>) requires s.len() == 4 ensures le4(un4(s)) =~= s, 0 <= un4(s) < 4294967296 {
        let v = un4(s);
        let a = s[0] as int; let b = s[1] as int; let c = s[2] as int; let d = s[3] as int;
        assert(v == 256 * (b + 256 * c + 65536 * d) + a);
        assert(v % 256 == a && v / 256 == b + 256 * c + 65536 * d);
        assert(v / 65536 == c + 256 * d);
        assert(v / 16777216 == d);
        assert((b + 256 * c + 65536 * d) % 256 == b);
    }
    /// the bit pattern of an f32
    pub uninterp spec fn f32_bits(f: f32) -> int;
    #[verifier::external_body]
    pub broadcast proof fn axiom_f32_bits(f: f32) ensures 0 <= #[trigger] f32_bits(f) < 4294967296 {}

    pub trait VToLe<const N: usize>: Sized {
        spec fn le_spec(&self) -> Seq<u8>;
        fn v_to_le_bytes(&self) -> (r: [u8; N]) ensures r@ == self.le_spec();
    }
    impl VToLe<1> for u8 {
        open spec fn le_spec(&self) -> Seq<u8> { seq![*self] }
        #[verifier::external_body]
        fn v_to_le_bytes(&self) -> (r: [u8; 1]) { u8::to_le_bytes(*self) }
    }
    impl VToLe<2> for u16 {
        open spec fn le_spec(&self) -> Seq<u8> { le2(*self as int) }
        #[verifier::external_body]
        fn v_to_le_bytes(&self) -> (r: [u8; 2]) { u16::to_le_bytes(*self) }
    }
    impl VToLe<4> for u32 {
        open spec fn le_spec(&self) -> Seq<u8> { le4(*self as int) }
        #[verifier::external_body]
        fn v_to_le_bytes(&self) -> (r: [u8; 4]) { u32::to_le_bytes(*self) }
    }
    impl VToLe<4> for f32 {
        open spec fn le_spec(&self) -> Seq<u8> { le4(f32_bits(*self)) }
        #[verifier::external_body]
        fn v_to_le_bytes(&self) -> (r: [u8; 4]) { f32::to_le_bytes(*self) }
    }
    impl VToLe<8> for u64 {
        open spec fn le_spec(&self) -> Seq<u8> { le8(*self as int) }
        #[verifier::external_body]
        fn v_to_le_bytes(&self) -> (r: [u8; 8]) { u64::to_le_bytes(*self) }
    }
    impl VToLe<8> for usize {
        open spec fn le_spec(&self) -> Seq<u8> { le8(*self as int) }
        #[verifier::external_body]
        fn v_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    }
    pub trait VToBe<const N: usize>: Sized {
        spec fn be_spec(&self) -> Seq<u8>;
        fn v_to_be_bytes(&self) -> (r: [u8; N]) ensures r@ == self.be_spec();
    }
    impl VToBe<1> for u8 {
        open spec fn be_spec(&self) -> Seq<u8> { seq![*self] }
        #[verifier::external_body]
        fn v_to_be_bytes(&self) -> (r: [u8; 1]) { u8::to_be_bytes(*self) }
    }
    impl VToBe<2> for u16 {
        open spec fn be_spec(&self) -> Seq<u8> { le2(*self as int).reverse() }
        #[verifier::external_body]
        fn v_to_be_bytes(&self) -> (r: [u8; 2]) { u16::to_be_bytes(*self) }
    }
    impl VToBe<4> for u32 {
        open spec fn be_spec(&self) -> Seq<u8> { le4(*self as int).reverse() }
        #[verifier::external_body]
        fn v_to_be_bytes(&self) -> (r: [u8; 4]) { u32::to_be_bytes(*self) }
    }
    impl VToBe<4> for f32 {
        open spec fn be_spec(&self) -> Seq<u8> { le4(f32_bits(*self)).reverse() }
        #[verifier::external_body]
        fn v_to_be_bytes(&self) -> (r: [u8; 4]) { f32::to_be_bytes(*self) }
    }
    impl VToBe<8> for u64 {
        open spec fn be_spec(&self) -> Seq<u8> { le8(*self as int).reverse() }
        #[verifier::external_body]
        fn v_to_be_bytes(&self) -> (r: [u8; 8]) { u64::to_be_bytes(*self) }
    }
    pub trait VToBits { spec fn bits_spec(&self) -> int; fn v_to_bits(&self) -> (r: u32) ensures r as int == self.bits_spec(); }
    impl VToBits for f32 {
        open spec fn bits_spec(&self) -> int { f32_bits(*self) }
        #[verifier::external_body]
        fn v_to_bits(&self) -> (r: u32) { f32::to_bits(*self) }
    }
    #[verifier::external_body]
    pub fn v_u8_from_le_bytes(b: [u8; 1]) -> (r: u8) ensures r == b@[0] { u8::from_le_bytes(b) }
    #[verifier::external_body]
    pub fn v_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == un2(b@) { u16::from_le_bytes(b) }
    #[verifier::external_body]
    pub fn v_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as int == un4(b@) { u32::from_le_bytes(b) }
    #[verifier::external_body]
    pub fn v_f32_from_le_bytes(b: [u8; 4]) -> (r: f32) ensures f32_bits(r) == un4(b@) { f32::from_le_bytes(b) }
    #[verifier::external_body]
    pub fn v_f32_from_bits(b: u32) -> (r: f32) ensures f32_bits(r) == b as int { f32::from_bits(b) }
    #[verifier::external_body]
    pub fn v_u8_from_be_bytes(b: [u8; 1]) -> (r: u8) ensures r == b@[0] { u8::from_be_bytes(b) }
    #[verifier::external_body]
    pub fn v_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == un2(b@.reverse()) { u16::from_be_bytes(b) }
    #[verifier::external_body]
    pub fn v_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r as int == un4(b@.reverse()) { u32::from_be_bytes(b) }
    #[verifier::external_body]
    pub fn v_f32_from_be_bytes(b: [u8; 4]) -> (r: f32) ensures f32_bits(r) == un4(b@.reverse()) { f32::from_be_bytes(b) }

    // ---- sequence facts used everywhere (proved) ---------------------------------------------
    pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        ensures #[trigger] ((a + b) + c) == a + (b + c)
    { assert(((a + b) + c) =~= a + (b + c)); }
    pub open spec fn rep(b: u8, n: nat) -> Seq<u8> { Seq::new(n, |i: int| b) }
    pub broadcast proof fn lemma_fill<const N: usize>(a: [u8; N])
        requires N > 0, forall|i: int| 0 <= i < N ==> #[trigger] a@[i] == a@[0]
        ensures #[trigger] a@ == rep(a@[0], N as nat)
    { assert(a@ =~= rep(a@[0], N as nat)); }
    pub broadcast proof fn lemma_no_elements<const N: usize>(a: [u8; N])
        requires N == 0
        ensures #[trigger] a@ == Seq::<u8>::empty()
    { assert(a@ =~= Seq::<u8>::empty()); }
    /// b is a with something appended
    #[verifier::opaque]
    pub open spec fn grew(a: Seq<u8>, b: Seq<u8>) -> bool { a.is_prefix_of(b) }
    pub broadcast proof fn lemma_grew_add(a: Seq<u8>, b: Seq<u8>)
        ensures #[trigger] grew(a, a + b)
    { reveal(grew); assert(a =~= (a + b).subrange(0, a.len() as int)); }
    pub broadcast proof fn lemma_grew_refl(a: Seq<u8>)
        ensures #[trigger] grew(a, a)
    { reveal(grew); assert(a =~= a.subrange(0, a.len() as int)); }
    pub broadcast proof fn lemma_grew_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        requires #[trigger] grew(a, b), #[trigger] grew(b, c)
        ensures grew(a, c)
    { reveal(grew); assert(a =~= c.subrange(0, a.len() as int)); }
    pub broadcast proof fn lemma_skip_skip(s: Seq<u8>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len()
        ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
    { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn lemma_skip_zero(s: Seq<u8>)
        ensures #[trigger] s.skip(0) == s
    { assert(s.skip(0) =~= s); }
    pub proof fn lemma_step(s: Seq<u8>, p: int, e: Seq<u8>, t: Seq<u8>)
        requires 0 <= p <= s.len(), s.skip(p) == e + t
        ensures 0 <= p + e.len() <= s.len(), s.skip(p + e.len()) == t
    { assert((e + t).skip(e.len() as int) =~= t); assert((e + t).len() == s.len() - p); lemma_skip_skip(s, p, e.len() as int); }
    pub broadcast proof fn lemma_skip_sub(s: Seq<u8>, a: int, b: int, c: int)
        requires 0 <= a, 0 <= b <= c, a + c <= s.len()
        ensures #[trigger] s.skip(a).subrange(b, c) == s.subrange(a + b, a + c)
    { assert(s.skip(a).subrange(b, c) =~= s.subrange(a + b, a + c)); }
    pub broadcast proof fn lemma_full_sub(s: Seq<u8>, n: int)
        requires n == s.len()
        ensures #[trigger] s.subrange(0, n) == s
    { assert(s.subrange(0, n) =~= s); }
    pub broadcast proof fn lemma_empty_add(s: Seq<u8>)
        ensures #[trigger] (Seq::<u8>::empty() + s) == s
    { assert(Seq::<u8>::empty() + s =~= s); }
    /// == on byte arrays
    #[verifier::external_body]
    pub broadcast proof fn axiom_arr_eq<const N: usize>(a: [u8; N], b: [u8; N])
        ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_arr_obeys<const N: usize>()
        ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_arr_ref_eq<'a, 'b, const N: usize>(a: &'a [u8; N], b: &'b [u8; N])
        ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_arr_ref_obeys<'a, 'b, const N: usize>()
        ensures #[trigger] <&'a [u8; N] as vstd::std_specs::cmp::PartialEqSpec<&'b [u8; N]>>::obeys_eq_spec() {}
    /// == on byte vectors and on strings
    #[verifier::external_body]
    pub broadcast proof fn axiom_vec_eq(a: Vec<u8>, b: Vec<u8>)
        ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_vec_obeys()
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_string_eq(a: String, b: String)
        ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_string_obeys()
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() {}
    /// == between vectors, slices, arrays, strings and references to them
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_S(a: Vec<u8>, b: &[u8])
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(&a, b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_S_obeys()
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rv_rs<'a, 'b>(a: &'a Vec<u8>, b: &'b [u8])
        ensures #[trigger] <&'a Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'b [u8]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rv_rs_obeys<'a, 'b>()
        ensures #[trigger] <&'a Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'b [u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_S_V(a: &[u8], b: Vec<u8>)
        ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_S_V_obeys()
        ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_rv<'a, 'b>(a: &'a [u8], b: &'b Vec<u8>)
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'b Vec<u8>>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_rv_obeys<'a, 'b>()
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'b Vec<u8>>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_A<const N: usize>(a: Vec<u8>, b: [u8; N])
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_A_obeys<const N: usize>()
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rv_ra<'a, 'b, const N: usize>(a: &'a Vec<u8>, b: &'b [u8; N])
        ensures #[trigger] <&'a Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'b [u8; N]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rv_ra_obeys<'a, 'b, const N: usize>()
        ensures #[trigger] <&'a Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'b [u8; N]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_S_A<const N: usize>(a: &[u8], b: [u8; N])
        ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::eq_spec(a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_S_A_obeys<const N: usize>()
        ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_ra<'a, 'b, const N: usize>(a: &'a [u8], b: &'b [u8; N])
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'b [u8; N]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_ra_obeys<'a, 'b, const N: usize>()
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'b [u8; N]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_A_S<const N: usize>(a: [u8; N], b: &[u8])
        ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(&a, b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_A_S_obeys<const N: usize>()
        ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_ra_rs<'a, 'b, const N: usize>(a: &'a [u8; N], b: &'b [u8])
        ensures #[trigger] <&'a [u8; N] as vstd::std_specs::cmp::PartialEqSpec<&'b [u8]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_ra_rs_obeys<'a, 'b, const N: usize>()
        ensures #[trigger] <&'a [u8; N] as vstd::std_specs::cmp::PartialEqSpec<&'b [u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_S_S(a: &[u8], b: &[u8])
        ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_S_S_obeys()
        ensures #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_rs<'a, 'b>(a: &'a [u8], b: &'b [u8])
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'b [u8]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_rs_obeys<'a, 'b>()
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<&'b [u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rv_rv<'a, 'b>(a: &'a Vec<u8>, b: &'b Vec<u8>)
        ensures #[trigger] <&'a Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'b Vec<u8>>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rv_rv_obeys<'a, 'b>()
        ensures #[trigger] <&'a Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'b Vec<u8>>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_St_s(a: String, b: &str)
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_St_s_obeys()
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rSt_rs<'a, 'b>(a: &'a String, b: &'b str)
        ensures #[trigger] <&'a String as vstd::std_specs::cmp::PartialEqSpec<&'b str>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rSt_rs_obeys<'a, 'b>()
        ensures #[trigger] <&'a String as vstd::std_specs::cmp::PartialEqSpec<&'b str>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_s_St(a: &str, b: String)
        ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_s_St_obeys()
        ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_rSt<'a, 'b>(a: &'a str, b: &'b String)
        ensures #[trigger] <&'a str as vstd::std_specs::cmp::PartialEqSpec<&'b String>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_rSt_obeys<'a, 'b>()
        ensures #[trigger] <&'a str as vstd::std_specs::cmp::PartialEqSpec<&'b String>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rst_rst<'a, 'b>(a: &'a String, b: &'b String)
        ensures #[trigger] <&'a String as vstd::std_specs::cmp::PartialEqSpec<&'b String>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rst_rst_obeys<'a, 'b>()
        ensures #[trigger] <&'a String as vstd::std_specs::cmp::PartialEqSpec<&'b String>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_rS<'a>(a: Vec<u8>, b: &'a [u8])
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'a [u8]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_rS_obeys<'a>()
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'a [u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_rA<'a, const N: usize>(a: Vec<u8>, b: &'a [u8; N])
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'a [u8; N]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_V_rA_obeys<'a, const N: usize>()
        ensures #[trigger] <Vec<u8> as vstd::std_specs::cmp::PartialEqSpec<&'a [u8; N]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rS_V<'a>(a: &'a [u8], b: Vec<u8>)
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rS_V_obeys<'a>()
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<Vec<u8>>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rS_A<'a, const N: usize>(a: &'a [u8], b: [u8; N])
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rS_A_obeys<'a, const N: usize>()
        ensures #[trigger] <&'a [u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_A_rS<'a, const N: usize>(a: [u8; N], b: &'a [u8])
        ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec<&'a [u8]>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_A_rS_obeys<'a, const N: usize>()
        ensures #[trigger] <[u8; N] as vstd::std_specs::cmp::PartialEqSpec<&'a [u8]>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_St_rs<'a>(a: String, b: &'a str)
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_St_rs_obeys<'a>()
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::obeys_eq_spec() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_St<'a>(a: &'a str, b: String)
        ensures #[trigger] <&'a str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_eq_rs_St_obeys<'a>()
        ensures #[trigger] <&'a str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec() {}

    // ---- bit operations as arithmetic (proved by bit-vector reasoning) ----------------------
    pub broadcast proof fn lemma_and1_u8(x: u8) ensures #[trigger] (x & 1u8) == x % 2u8 { assert((x & 1u8) == (x % 2u8)) by(bit_vector); }
    pub broadcast proof fn lemma_and1_u16(x: u16) ensures #[trigger] (x & 1u16) == x % 2u16 { assert((x & 1u16) == (x % 2u16)) by(bit_vector); }
    pub broadcast proof fn lemma_and1_u32(x: u32) ensures #[trigger] (x & 1u32) == x % 2u32 { assert((x & 1u32) == (x % 2u32)) by(bit_vector); }
    pub broadcast proof fn lemma_and1_u64(x: u64) ensures #[trigger] (x & 1u64) == x % 2u64 { assert((x & 1u64) == (x % 2u64)) by(bit_vector); }
    pub broadcast proof fn lemma_and255_u16(x: u16) ensures #[trigger] (x & 255u16) == x % 256u16 { assert((x & 255u16) == (x % 256u16)) by(bit_vector); }
    pub broadcast proof fn lemma_shr8_u16(x: u16) ensures #[trigger] (x >> 8u16) == x / 256u16 { assert((x >> 8u16) == (x / 256u16)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl8_u16(x: u16, y: u16) requires x < 256u16, y < 256u16 ensures #[trigger] (x | (y << 8u16)) == x + 256 * y { assert((x | (y << 8u16)) == x + mul(y, 256u16) && mul(y, 256u16) <= sub(65535u16, x)) by(bit_vector) requires x < 256u16, y < 256u16; }
    pub broadcast proof fn lemma_shlor8_u16(x: u16, y: u16) requires x < 256u16, y < 256u16 ensures #[trigger] ((y << 8u16) | x) == x + 256 * y { assert(((y << 8u16) | x) == x + mul(y, 256u16) && mul(y, 256u16) <= sub(65535u16, x)) by(bit_vector) requires x < 256u16, y < 256u16; }
    pub broadcast proof fn lemma_and255_u32(x: u32) ensures #[trigger] (x & 255u32) == x % 256u32 { assert((x & 255u32) == (x % 256u32)) by(bit_vector); }
    pub broadcast proof fn lemma_shr8_u32(x: u32) ensures #[trigger] (x >> 8u32) == x / 256u32 { assert((x >> 8u32) == (x / 256u32)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl8_u32(x: u32, y: u32) requires x < 256u32, y < 16777216u32 ensures #[trigger] (x | (y << 8u32)) == x + 256 * y { assert((x | (y << 8u32)) == x + mul(y, 256u32) && mul(y, 256u32) <= sub(4294967295u32, x)) by(bit_vector) requires x < 256u32, y < 16777216u32; }
    pub broadcast proof fn lemma_shlor8_u32(x: u32, y: u32) requires x < 256u32, y < 16777216u32 ensures #[trigger] ((y << 8u32) | x) == x + 256 * y { assert(((y << 8u32) | x) == x + mul(y, 256u32) && mul(y, 256u32) <= sub(4294967295u32, x)) by(bit_vector) requires x < 256u32, y < 16777216u32; }
    pub broadcast proof fn lemma_shr16_u32(x: u32) ensures #[trigger] (x >> 16u32) == x / 65536u32 { assert((x >> 16u32) == (x / 65536u32)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl16_u32(x: u32, y: u32) requires x < 65536u32, y < 65536u32 ensures #[trigger] (x | (y << 16u32)) == x + 65536 * y { assert((x | (y << 16u32)) == x + mul(y, 65536u32) && mul(y, 65536u32) <= sub(4294967295u32, x)) by(bit_vector) requires x < 65536u32, y < 65536u32; }
    pub broadcast proof fn lemma_shlor16_u32(x: u32, y: u32) requires x < 65536u32, y < 65536u32 ensures #[trigger] ((y << 16u32) | x) == x + 65536 * y { assert(((y << 16u32) | x) == x + mul(y, 65536u32) && mul(y, 65536u32) <= sub(4294967295u32, x)) by(bit_vector) requires x < 65536u32, y < 65536u32; }
    pub broadcast proof fn lemma_shr24_u32(x: u32) ensures #[trigger] (x >> 24u32) == x / 16777216u32 { assert((x >> 24u32) == (x / 16777216u32)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl24_u32(x: u32, y: u32) requires x < 16777216u32, y < 256u32 ensures #[trigger] (x | (y << 24u32)) == x + 16777216 * y { assert((x | (y << 24u32)) == x + mul(y, 16777216u32) && mul(y, 16777216u32) <= sub(4294967295u32, x)) by(bit_vector) requires x < 16777216u32, y < 256u32; }
    pub broadcast proof fn lemma_shlor24_u32(x: u32, y: u32) requires x < 16777216u32, y < 256u32 ensures #[trigger] ((y << 24u32) | x) == x + 16777216 * y { assert(((y << 24u32) | x) == x + mul(y, 16777216u32) && mul(y, 16777216u32) <= sub(4294967295u32, x)) by(bit_vector) requires x < 16777216u32, y < 256u32; }
    pub broadcast proof fn lemma_and255_u64(x: u64) ensures #[trigger] (x & 255u64) == x % 256u64 { assert((x & 255u64) == (x % 256u64)) by(bit_vector); }
    pub broadcast proof fn lemma_shr8_u64(x: u64) ensures #[trigger] (x >> 8u64) == x / 256u64 { assert((x >> 8u64) == (x / 256u64)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl8_u64(x: u64, y: u64) requires x < 256u64, y < 72057594037927936u64 ensures #[trigger] (x | (y << 8u64)) == x + 256 * y { assert((x | (y << 8u64)) == x + mul(y, 256u64) && mul(y, 256u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 256u64, y < 72057594037927936u64; }
    pub broadcast proof fn lemma_shlor8_u64(x: u64, y: u64) requires x < 256u64, y < 72057594037927936u64 ensures #[trigger] ((y << 8u64) | x) == x + 256 * y { assert(((y << 8u64) | x) == x + mul(y, 256u64) && mul(y, 256u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 256u64, y < 72057594037927936u64; }
    pub broadcast proof fn lemma_shr16_u64(x: u64) ensures #[trigger] (x >> 16u64) == x / 65536u64 { assert((x >> 16u64) == (x / 65536u64)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl16_u64(x: u64, y: u64) requires x < 65536u64, y < 281474976710656u64 ensures #[trigger] (x | (y << 16u64)) == x + 65536 * y { assert((x | (y << 16u64)) == x + mul(y, 65536u64) && mul(y, 65536u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 65536u64, y < 281474976710656u64; }
    pub broadcast proof fn lemma_shlor16_u64(x: u64, y: u64) requires x < 65536u64, y < 281474976710656u64 ensures #[trigger] ((y << 16u64) | x) == x + 65536 * y { assert(((y << 16u64) | x) == x + mul(y, 65536u64) && mul(y, 65536u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 65536u64, y < 281474976710656u64; }
    pub broadcast proof fn lemma_shr24_u64(x: u64) ensures #[trigger] (x >> 24u64) == x / 16777216u64 { assert((x >> 24u64) == (x / 16777216u64)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl24_u64(x: u64, y: u64) requires x < 16777216u64, y < 1099511627776u64 ensures #[trigger] (x | (y << 24u64)) == x + 16777216 * y { assert((x | (y << 24u64)) == x + mul(y, 16777216u64) && mul(y, 16777216u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 16777216u64, y < 1099511627776u64; }
    pub broadcast proof fn lemma_shlor24_u64(x: u64, y: u64) requires x < 16777216u64, y < 1099511627776u64 ensures #[trigger] ((y << 24u64) | x) == x + 16777216 * y { assert(((y << 24u64) | x) == x + mul(y, 16777216u64) && mul(y, 16777216u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 16777216u64, y < 1099511627776u64; }
    pub broadcast proof fn lemma_shr32_u64(x: u64) ensures #[trigger] (x >> 32u64) == x / 4294967296u64 { assert((x >> 32u64) == (x / 4294967296u64)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl32_u64(x: u64, y: u64) requires x < 4294967296u64, y < 4294967296u64 ensures #[trigger] (x | (y << 32u64)) == x + 4294967296 * y { assert((x | (y << 32u64)) == x + mul(y, 4294967296u64) && mul(y, 4294967296u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 4294967296u64, y < 4294967296u64; }
    pub broadcast proof fn lemma_shlor32_u64(x: u64, y: u64) requires x < 4294967296u64, y < 4294967296u64 ensures #[trigger] ((y << 32u64) | x) == x + 4294967296 * y { assert(((y << 32u64) | x) == x + mul(y, 4294967296u64) && mul(y, 4294967296u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 4294967296u64, y < 4294967296u64; }
    pub broadcast proof fn lemma_shr40_u64(x: u64) ensures #[trigger] (x >> 40u64) == x / 1099511627776u64 { assert((x >> 40u64) == (x / 1099511627776u64)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl40_u64(x: u64, y: u64) requires x < 1099511627776u64, y < 16777216u64 ensures #[trigger] (x | (y << 40u64)) == x + 1099511627776 * y { assert((x | (y << 40u64)) == x + mul(y, 1099511627776u64) && mul(y, 1099511627776u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 1099511627776u64, y < 16777216u64; }
    pub broadcast proof fn lemma_shlor40_u64(x: u64, y: u64) requires x < 1099511627776u64, y < 16777216u64 ensures #[trigger] ((y << 40u64) | x) == x + 1099511627776 * y { assert(((y << 40u64) | x) == x + mul(y, 1099511627776u64) && mul(y, 1099511627776u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 1099511627776u64, y < 16777216u64; }
    pub broadcast proof fn lemma_shr48_u64(x: u64) ensures #[trigger] (x >> 48u64) == x / 281474976710656u64 { assert((x >> 48u64) == (x / 281474976710656u64)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl48_u64(x: u64, y: u64) requires x < 281474976710656u64, y < 65536u64 ensures #[trigger] (x | (y << 48u64)) == x + 281474976710656 * y { assert((x | (y << 48u64)) == x + mul(y, 281474976710656u64) && mul(y, 281474976710656u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 281474976710656u64, y < 65536u64; }
    pub broadcast proof fn lemma_shlor48_u64(x: u64, y: u64) requires x < 281474976710656u64, y < 65536u64 ensures #[trigger] ((y << 48u64) | x) == x + 281474976710656 * y { assert(((y << 48u64) | x) == x + mul(y, 281474976710656u64) && mul(y, 281474976710656u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 281474976710656u64, y < 65536u64; }
    pub broadcast proof fn lemma_shr56_u64(x: u64) ensures #[trigger] (x >> 56u64) == x / 72057594037927936u64 { assert((x >> 56u64) == (x / 72057594037927936u64)) by(bit_vector); }
    pub broadcast proof fn lemma_orshl56_u64(x: u64, y: u64) requires x < 72057594037927936u64, y < 256u64 ensures #[trigger] (x | (y << 56u64)) == x + 72057594037927936 * y { assert((x | (y << 56u64)) == x + mul(y, 72057594037927936u64) && mul(y, 72057594037927936u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 72057594037927936u64, y < 256u64; }
    pub broadcast proof fn lemma_shlor56_u64(x: u64, y: u64) requires x < 72057594037927936u64, y < 256u64 ensures #[trigger] ((y << 56u64) | x) == x + 72057594037927936 * y { assert(((y << 56u64) | x) == x + mul(y, 72057594037927936u64) && mul(y, 72057594037927936u64) <= sub(18446744073709551615u64, x)) by(bit_vector) requires x < 72057594037927936u64, y < 256u64; }
    pub broadcast proof fn lemma_top16(x: u16) ensures #[trigger] (x & 0x8000u16) == (if x >= 0x8000u16 { 0x8000u16 } else { 0u16 }) { assert((x & 0x8000u16) == ((if x >= 0x8000u16 { 0x8000u16 } else { 0u16 }))) by(bit_vector); }
    pub broadcast proof fn lemma_low16(x: u16) ensures #[trigger] (x & 0x7FFFu16) == x % 0x8000u16 { assert((x & 0x7FFFu16) == (x % 0x8000u16)) by(bit_vector); }
    pub broadcast proof fn lemma_nottop16(x: u16) ensures #[trigger] (x & !0x8000u16) == x % 0x8000u16 { assert((x & !0x8000u16) == (x % 0x8000u16)) by(bit_vector); }
    pub broadcast proof fn lemma_notlow16(x: u16) ensures #[trigger] (x & !0x7FFFu16) == (if x >= 0x8000u16 { 0x8000u16 } else { 0u16 }) { assert((x & !0x7FFFu16) == ((if x >= 0x8000u16 { 0x8000u16 } else { 0u16 }))) by(bit_vector); }
    pub broadcast proof fn lemma_shr15(x: u16) ensures #[trigger] (x >> 15u16) == (if x >= 0x8000u16 { 1u16 } else { 0u16 }) { assert((x >> 15u16) == ((if x >= 0x8000u16 { 1u16 } else { 0u16 }))) by(bit_vector); }
    pub broadcast proof fn lemma_or16(x: u16) ensures #[trigger] (x | 0x8000u16) == (if x >= 0x8000u16 { x } else { add(x, 0x8000u16) }) { assert((x | 0x8000u16) == ((if x >= 0x8000u16 { x } else { add(x, 0x8000u16) }))) by(bit_vector); }
    pub broadcast proof fn lemma_ro16(x: u16) ensures #[trigger] (0x8000u16 | x) == (if x >= 0x8000u16 { x } else { add(x, 0x8000u16) }) { assert((0x8000u16 | x) == ((if x >= 0x8000u16 { x } else { add(x, 0x8000u16) }))) by(bit_vector); }
    pub broadcast proof fn lemma_xor16(x: u16) ensures #[trigger] (x ^ 0x8000u16) == (if x >= 0x8000u16 { sub(x, 0x8000u16) } else { add(x, 0x8000u16) }) { assert((x ^ 0x8000u16) == ((if x >= 0x8000u16 { sub(x, 0x8000u16) } else { add(x, 0x8000u16) }))) by(bit_vector); }
    pub broadcast proof fn lemma_mask0(x: u32) ensures (#[trigger] (x & 0u32) == x) <==> (x & !0u32 == 0) { assert((x & 0u32 == x) <==> (x & !0u32 == 0)) by(bit_vector); }
    pub broadcast proof fn lemma_nmask0(x: u32) ensures (#[trigger] (x & !0u32) == 0) <==> (x <= 0u32) { assert((x & !0u32 == 0) <==> (x <= 0u32)) by(bit_vector); }
    pub broadcast proof fn lemma_mask1(x: u32) ensures (#[trigger] (x & 1u32) == x) <==> (x & !1u32 == 0) { assert((x & 1u32 == x) <==> (x & !1u32 == 0)) by(bit_vector); }
    pub broadcast proof fn lemma_nmask1(x: u32) ensures (#[trigger] (x & !1u32) == 0) <==> (x <= 1u32) { assert((x & !1u32 == 0) <==> (x <= 1u32)) by(bit_vector); }
    pub broadcast proof fn lemma_shr1_u32(x: u32) ensures #[trigger] (x >> 1u32) == x / 2u32 { assert((x >> 1u32) == (x / 2u32)) by(bit_vector); }
    pub broadcast proof fn lemma_mask3(x: u32) ensures (#[trigger] (x & 3u32) == x) <==> (x & !3u32 == 0) { assert((x & 3u32 == x) <==> (x & !3u32 == 0)) by(bit_vector); }
    pub broadcast proof fn lemma_nmask3(x: u32) ensures (#[trigger] (x & !3u32) == 0) <==> (x <= 3u32) { assert((x & !3u32 == 0) <==> (x <= 3u32)) by(bit_vector); }
    pub broadcast proof fn lemma_shr2_u32(x: u32) ensures #[trigger] (x >> 2u32) == x / 4u32 { assert((x >> 2u32) == (x / 4u32)) by(bit_vector); }
    pub broadcast proof fn lemma_mask7(x: u32) ensures (#[trigger] (x & 7u32) == x) <==> (x & !7u32 == 0) { assert((x & 7u32 == x) <==> (x & !7u32 == 0)) by(bit_vector); }
    pub broadcast proof fn lemma_nmask7(x: u32) ensures (#[trigger] (x & !7u32) == 0) <==> (x <= 7u32) { assert((x & !7u32 == 0) <==> (x <= 7u32)) by(bit_vector); }
    pub broadcast proof fn lemma_shr3_u32(x: u32) ensures #[trigger] (x >> 3u32) == x / 8u32 { assert((x >> 3u32) == (x / 8u32)) by(bit_vector); }
    pub broadcast proof fn lemma_orvar_u16(x: u16, y: u16) ensures y == 0x8000u16 ==> #[trigger] (x | y) == (if x >= 0x8000u16 { x } else { add(x, 0x8000u16) }), y == 0 ==> (x | y) == x, x == 0x8000u16 ==> (x | y) == (if y >= 0x8000u16 { y } else { add(y, 0x8000u16) }), x == 0 ==> (x | y) == y { assert((y == 0x8000u16 ==> (x | y) == (if x >= 0x8000u16 { x } else { add(x, 0x8000u16) })) && (y == 0 ==> (x | y) == x) && (x == 0x8000u16 ==> (x | y) == (if y >= 0x8000u16 { y } else { add(y, 0x8000u16) })) && (x == 0 ==> (x | y) == y)) by(bit_vector); }
    pub broadcast group group_bits {
        lemma_orvar_u16, lemma_mask0, lemma_nmask0, lemma_mask1, lemma_nmask1, lemma_shr1_u32, lemma_mask3, lemma_nmask3, lemma_shr2_u32, lemma_mask7, lemma_nmask7, lemma_shr3_u32, lemma_and1_u8, lemma_and1_u16, lemma_and1_u32, lemma_and1_u64, lemma_and255_u16, lemma_shr8_u16, lemma_orshl8_u16, lemma_shlor8_u16, lemma_and255_u32, lemma_shr8_u32, lemma_orshl8_u32, lemma_shlor8_u32, lemma_shr16_u32, lemma_orshl16_u32, lemma_shlor16_u32, lemma_shr24_u32, lemma_orshl24_u32, lemma_shlor24_u32, lemma_and255_u64, lemma_shr8_u64, lemma_orshl8_u64, lemma_shlor8_u64, lemma_shr16_u64, lemma_orshl16_u64, lemma_shlor16_u64, lemma_shr24_u64, lemma_orshl24_u64, lemma_shlor24_u64, lemma_shr32_u64, lemma_orshl32_u64, lemma_shlor32_u64, lemma_shr40_u64, lemma_orshl40_u64, lemma_shlor40_u64, lemma_shr48_u64, lemma_orshl48_u64, lemma_shlor48_u64, lemma_shr56_u64, lemma_orshl56_u64, lemma_shlor56_u64, lemma_top16, lemma_low16, lemma_nottop16, lemma_notlow16, lemma_shr15, lemma_or16, lemma_ro16, lemma_xor16,
    }
    pub broadcast group group_vshim {
        axiom_arr_eq, axiom_arr_obeys, axiom_arr_ref_eq, axiom_arr_ref_obeys, axiom_vec_eq, axiom_vec_obeys, axiom_string_eq, axiom_string_obeys,
        axiom_eq_V_S, axiom_eq_V_S_obeys, axiom_eq_rv_rs, axiom_eq_rv_rs_obeys, axiom_eq_S_V, axiom_eq_S_V_obeys, axiom_eq_rs_rv, axiom_eq_rs_rv_obeys, axiom_eq_V_A, axiom_eq_V_A_obeys, axiom_eq_rv_ra, axiom_eq_rv_ra_obeys, axiom_eq_S_A, axiom_eq_S_A_obeys, axiom_eq_rs_ra, axiom_eq_rs_ra_obeys, axiom_eq_A_S, axiom_eq_A_S_obeys, axiom_eq_ra_rs, axiom_eq_ra_rs_obeys, axiom_eq_S_S, axiom_eq_S_S_obeys, axiom_eq_rs_rs, axiom_eq_rs_rs_obeys, axiom_eq_rv_rv, axiom_eq_rv_rv_obeys, axiom_eq_St_s, axiom_eq_St_s_obeys, axiom_eq_rSt_rs, axiom_eq_rSt_rs_obeys, axiom_eq_s_St, axiom_eq_s_St_obeys, axiom_eq_rs_rSt, axiom_eq_rs_rSt_obeys, axiom_eq_rst_rst, axiom_eq_rst_rst_obeys, axiom_eq_V_rS, axiom_eq_V_rS_obeys, axiom_eq_V_rA, axiom_eq_V_rA_obeys, axiom_eq_rS_V, axiom_eq_rS_V_obeys, axiom_eq_rS_A, axiom_eq_rS_A_obeys, axiom_eq_A_rS, axiom_eq_A_rS_obeys, axiom_eq_St_rs, axiom_eq_St_rs_obeys, axiom_eq_rs_St, axiom_eq_rs_St_obeys,
        lemma_full_sub, lemma_empty_add, lemma_skip_sub, lemma_grew_add, lemma_grew_refl, lemma_grew_trans, lemma_skip_skip, lemma_skip_zero, axiom_f32_bits, lemma_cat,
    }

    // ---- panics, formatting ------------------------------------------------------------------
    #[verifier::external_body]
    pub fn v_panic() -> ! requires false { panic!() }
    #[verifier::external_body]
    pub fn v_format() -> (r: String) { String::new() }

    // ---- slices and vectors ------------------------------------------------------------------
    pub trait VCopyFromSlice {
        spec fn view_seq(&self) -> Seq<u8>;
        fn v_copy_from_slice(&mut self, src: &[u8])
            requires old(self).view_seq().len() == src@.len()
            ensures final(self).view_seq() == src@;
    }
    impl VCopyFromSlice for [u8] {
        open spec fn view_seq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_copy_from_slice(&mut self, src: &[u8]) { self.copy_from_slice(src) }
    }
    impl<const N: usize> VCopyFromSlice for [u8; N] {
        open spec fn view_seq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_copy_from_slice(&mut self, src: &[u8]) { self.copy_from_slice(src) }
    }
    impl VCopyFromSlice for Vec<u8> {
        open spec fn view_seq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_copy_from_slice(&mut self, src: &[u8]) { self.copy_from_slice(src) }
    }
    pub trait VExtend {
        spec fn eseq(&self) -> Seq<u8>;
        fn v_extend_from_slice(&mut self, src: &[u8])
            ensures final(self).eseq() == old(self).eseq() + src@;
    }
    impl VExtend for Vec<u8> {
        open spec fn eseq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_extend_from_slice(&mut self, src: &[u8]) { self.extend_from_slice(src) }
    }
    pub trait VFill {
        spec fn fseq(&self) -> Seq<u8>;
        fn v_fill(&mut self, b: u8)
            ensures final(self).fseq() == rep(b, old(self).fseq().len());
    }
    impl VFill for [u8] {
        open spec fn fseq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_fill(&mut self, b: u8) { self.fill(b) }
    }
    impl<const N: usize> VFill for [u8; N] {
        open spec fn fseq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_fill(&mut self, b: u8) { self.fill(b) }
    }
    /// ToString of what has a Display
    pub trait VToString {
        spec fn stext(&self) -> Seq<char>;
        fn v_to_string(&self) -> (r: String) ensures r@ == self.stext();
    }
    impl<T: crate::ext::fmt::Display + ?Sized> VToString for T {
        open spec fn stext(&self) -> Seq<char> { self.text() }
        #[verifier::external_body]
        fn v_to_string(&self) -> (r: String) { unimplemented!() }
    }
    pub trait VToVec {
        spec fn tseq(&self) -> Seq<u8>;
        fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tseq();
    }
    impl VToVec for [u8] {
        open spec fn tseq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
    }
    impl<const N: usize> VToVec for [u8; N] {
        open spec fn tseq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
    }
    impl VToVec for Vec<u8> {
        open spec fn tseq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
    }
    #[verifier::external_body]
    pub fn v_vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { Vec::from(a) }
    #[verifier::external_body]
    pub fn v_from_elem(x: u8, n: usize) -> (r: Vec<u8>) ensures r@ == rep(x, n as nat) { vec![x; n] }

    pub open spec fn sum(s: Seq<usize>) -> int decreases s.len() {
        if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as int }
    }
    #[verifier::external_body]
    pub fn v_sum_usize<const N: usize>(a: &[usize; N]) -> (r: usize)
        requires sum(a@) <= usize::MAX
        ensures r as int == sum(a@)
    { a.iter().sum() }

    pub trait VClone: Sized {
        fn v_clone(&self) -> (r: Self) ensures r == *self;
    }
    #[verifier::external_body]
    pub fn v_clone_fn<T: VClone>(x: &T) -> (r: T) ensures r == *x { x.v_clone() }
    impl VClone for u8 { fn v_clone(&self) -> (r: Self) { *self } }
    impl VClone for u16 { fn v_clone(&self) -> (r: Self) { *self } }
    impl VClone for u32 { fn v_clone(&self) -> (r: Self) { *self } }
    impl VClone for u64 { fn v_clone(&self) -> (r: Self) { *self } }
    impl VClone for usize { fn v_clone(&self) -> (r: Self) { *self } }
    impl VClone for bool { fn v_clone(&self) -> (r: Self) { *self } }
    impl<T: VClone> VClone for Vec<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
    impl VClone for String { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { self.clone() } }
    impl<const N: usize> VClone for [u8; N] { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { *self } }
    pub trait VToOwned { type O; spec fn owned(&self, o: Self::O) -> bool; fn v_to_owned(&self) -> (r: Self::O) ensures self.owned(r); }
    impl<const N: usize> VToOwned for [u8; N] {
        type O = [u8; N];
        open spec fn owned(&self, o: [u8; N]) -> bool { o == *self }
        #[verifier::external_body]
        fn v_to_owned(&self) -> (r: [u8; N]) { *self }
    }
    impl VToOwned for [u8] {
        type O = Vec<u8>;
        open spec fn owned(&self, o: Vec<u8>) -> bool { o@ == self@ }
        #[verifier::external_body]
        fn v_to_owned(&self) -> (r: Vec<u8>) { self.to_vec() }
    }
    impl VToOwned for str {
        type O = String;
        open spec fn owned(&self, o: String) -> bool { o@ == self@ }
        #[verifier::external_body]
        fn v_to_owned(&self) -> (r: String) { self.to_owned() }
    }

    // ---- conversions: Into / TryInto ---------------------------------------------------------
    pub trait VInto<U>: Sized {
        spec fn conv(self, u: U) -> bool;
        fn v_into(self) -> (r: U) ensures self.conv(r);
    }
    impl<'a> VInto<String> for &'a str {
        open spec fn conv(self, u: String) -> bool { u@ == self@ }
        #[verifier::external_body]
        fn v_into(self) -> (r: String) { self.into() }
    }
    impl VInto<String> for String {
        open spec fn conv(self, u: String) -> bool { u == self }
        fn v_into(self) -> (r: String) { proof { let d = self.conv(arbitrary::<String>()); } self }
    }
    impl<'a> VInto<String> for &'a String {
        open spec fn conv(self, u: String) -> bool { u@ == self@ }
        #[verifier::external_body]
        fn v_into(self) -> (r: String) { self.into() }
    }
    impl<'a> VInto<Vec<u8>> for &'a [u8] {
        open spec fn conv(self, u: Vec<u8>) -> bool { u@ == self@ }
        #[verifier::external_body]
        fn v_into(self) -> (r: Vec<u8>) { self.into() }
    }
    impl<const N: usize> VInto<Vec<u8>> for [u8; N] {
        open spec fn conv(self, u: Vec<u8>) -> bool { u@ == self@ }
        #[verifier::external_body]
        fn v_into(self) -> (r: Vec<u8>) { self.into() }
    }
    impl<'a, const N: usize> VInto<Vec<u8>> for &'a [u8; N] {
        open spec fn conv(self, u: Vec<u8>) -> bool { u@ == self@ }
        #[verifier::external_body]
        fn v_into(self) -> (r: Vec<u8>) { (*self).into() }
    }
    impl VInto<Vec<u8>> for Vec<u8> {
        open spec fn conv(self, u: Vec<u8>) -> bool { u == self }
        fn v_into(self) -> (r: Vec<u8>) { proof { let d = self.conv(arbitrary::<Vec<u8>>()); } self }
    }
    impl VInto<usize> for u8 { open spec fn conv(self, u: usize) -> bool { u as int == self as int } fn v_into(self) -> (r: usize) { proof { let d = self.conv(arbitrary::<usize>()); } self as usize } }
    impl VInto<usize> for u16 { open spec fn conv(self, u: usize) -> bool { u as int == self as int } fn v_into(self) -> (r: usize) { proof { let d = self.conv(arbitrary::<usize>()); } self as usize } }
    impl VInto<usize> for usize { open spec fn conv(self, u: usize) -> bool { u == self } fn v_into(self) -> (r: usize) { proof { let d = self.conv(arbitrary::<usize>()); } self } }
    impl VInto<u16> for u8 { open spec fn conv(self, u: u16) -> bool { u as int == self as int } fn v_into(self) -> (r: u16) { proof { let d = self.conv(arbitrary::<u16>()); } self as u16 } }
    impl VInto<u32> for u8 { open spec fn conv(self, u: u32) -> bool { u as int == self as int } fn v_into(self) -> (r: u32) { proof { let d = self.conv(arbitrary::<u32>()); } self as u32 } }
    impl VInto<u32> for u16 { open spec fn conv(self, u: u32) -> bool { u as int == self as int } fn v_into(self) -> (r: u32) { proof { let d = self.conv(arbitrary::<u32>()); } self as u32 } }
    impl VInto<u32> for u32 { open spec fn conv(self, u: u32) -> bool { u == self } fn v_into(self) -> (r: u32) { proof { let d = self.conv(arbitrary::<u32>()); } self } }
    impl VInto<u64> for u8 { open spec fn conv(self, u: u64) -> bool { u as int == self as int } fn v_into(self) -> (r: u64) { proof { let d = self.conv(arbitrary::<u64>()); } self as u64 } }
    impl VInto<u128> for u8 { open spec fn conv(self, u: u128) -> bool { u as int == self as int } fn v_into(self) -> (r: u128) { proof { let d = self.conv(arbitrary::<u128>()); } self as u128 } }
    impl VInto<u64> for u16 { open spec fn conv(self, u: u64) -> bool { u as int == self as int } fn v_into(self) -> (r: u64) { proof { let d = self.conv(arbitrary::<u64>()); } self as u64 } }
    impl VInto<u128> for u16 { open spec fn conv(self, u: u128) -> bool { u as int == self as int } fn v_into(self) -> (r: u128) { proof { let d = self.conv(arbitrary::<u128>()); } self as u128 } }
    impl VInto<u64> for u32 { open spec fn conv(self, u: u64) -> bool { u as int == self as int } fn v_into(self) -> (r: u64) { proof { let d = self.conv(arbitrary::<u64>()); } self as u64 } }
    impl VInto<u128> for u32 { open spec fn conv(self, u: u128) -> bool { u as int == self as int } fn v_into(self) -> (r: u128) { proof { let d = self.conv(arbitrary::<u128>()); } self as u128 } }
    impl VInto<u128> for u64 { open spec fn conv(self, u: u128) -> bool { u as int == self as int } fn v_into(self) -> (r: u128) { proof { let d = self.conv(arbitrary::<u128>()); } self as u128 } }
    impl VInto<u8> for u8 { open spec fn conv(self, u: u8) -> bool { u as int == self as int } fn v_into(self) -> (r: u8) { proof { let d = self.conv(arbitrary::<u8>()); } self as u8 } }
    impl VInto<u16> for u16 { open spec fn conv(self, u: u16) -> bool { u as int == self as int } fn v_into(self) -> (r: u16) { proof { let d = self.conv(arbitrary::<u16>()); } self as u16 } }
    impl VInto<u64> for u64 { open spec fn conv(self, u: u64) -> bool { u as int == self as int } fn v_into(self) -> (r: u64) { proof { let d = self.conv(arbitrary::<u64>()); } self as u64 } }
    impl VInto<u128> for u128 { open spec fn conv(self, u: u128) -> bool { u as int == self as int } fn v_into(self) -> (r: u128) { proof { let d = self.conv(arbitrary::<u128>()); } self as u128 } }
    impl VInto<u8> for bool { open spec fn conv(self, u: u8) -> bool { u as int == (if self { 1int } else { 0 }) } fn v_into(self) -> (r: u8) { proof { let d = self.conv(arbitrary::<u8>()); } if self { 1 } else { 0 } } }
    impl VInto<u16> for bool { open spec fn conv(self, u: u16) -> bool { u as int == (if self { 1int } else { 0 }) } fn v_into(self) -> (r: u16) { proof { let d = self.conv(arbitrary::<u16>()); } if self { 1 } else { 0 } } }
    impl VInto<u32> for bool { open spec fn conv(self, u: u32) -> bool { u as int == (if self { 1int } else { 0 }) } fn v_into(self) -> (r: u32) { proof { let d = self.conv(arbitrary::<u32>()); } if self { 1 } else { 0 } } }
    impl VInto<u64> for bool { open spec fn conv(self, u: u64) -> bool { u as int == (if self { 1int } else { 0 }) } fn v_into(self) -> (r: u64) { proof { let d = self.conv(arbitrary::<u64>()); } if self { 1 } else { 0 } } }
    impl VInto<usize> for bool { open spec fn conv(self, u: usize) -> bool { u as int == (if self { 1int } else { 0 }) } fn v_into(self) -> (r: usize) { proof { let d = self.conv(arbitrary::<usize>()); } if self { 1 } else { 0 } } }

    pub trait VTryInto<U>: Sized {
        type E;
        spec fn try_ok(self) -> bool;
        spec fn try_conv(self, u: U) -> bool;
        fn v_try_into(self) -> (r: Result<U, Self::E>)
            ensures r is Ok <==> self.try_ok(), r is Ok ==> self.try_conv(r->Ok_0);
    }
    impl VTryInto<u8> for usize {
        type E = std::num::TryFromIntError;
        open spec fn try_ok(self) -> bool { self <= 255 }
        open spec fn try_conv(self, u: u8) -> bool { u as int == self as int }
        #[verifier::external_body]
        fn v_try_into(self) -> (r: Result<u8, std::num::TryFromIntError>) { self.try_into() }
    }
    impl VTryInto<u16> for usize {
        type E = std::num::TryFromIntError;
        open spec fn try_ok(self) -> bool { self <= 65535 }
        open spec fn try_conv(self, u: u16) -> bool { u as int == self as int }
        #[verifier::external_body]
        fn v_try_into(self) -> (r: Result<u16, std::num::TryFromIntError>) { self.try_into() }
    }
    impl VTryInto<u32> for usize {
        type E = std::num::TryFromIntError;
        open spec fn try_ok(self) -> bool { self <= 4294967295 }
        open spec fn try_conv(self, u: u32) -> bool { u as int == self as int }
        #[verifier::external_body]
        fn v_try_into(self) -> (r: Result<u32, std::num::TryFromIntError>) { self.try_into() }
    }
    impl VTryInto<u32> for u64 {
        type E = std::num::TryFromIntError;
        open spec fn try_ok(self) -> bool { self <= 4294967295 }
        open spec fn try_conv(self, u: u32) -> bool { u as int == self as int }
        #[verifier::external_body]
        fn v_try_into(self) -> (r: Result<u32, std::num::TryFromIntError>) { self.try_into() }
    }
    impl<const N: usize> VTryInto<[u8; N]> for Vec<u8> {
        type E = Vec<u8>;
        open spec fn try_ok(self) -> bool { self@.len() == N }
        open spec fn try_conv(self, u: [u8; N]) -> bool { u@ == self@ }
        #[verifier::external_body]
        fn v_try_into(self) -> (r: Result<[u8; N], Vec<u8>>) { self.try_into() }
    }
    impl<'a, const N: usize> VTryInto<[u8; N]> for &'a [u8] {
        type E = crate::ext::array::TryFromSliceError;
        open spec fn try_ok(self) -> bool { self@.len() == N }
        open spec fn try_conv(self, u: [u8; N]) -> bool { u@ == self@ }
        #[verifier::external_body]
        fn v_try_into(self) -> (r: Result<[u8; N], crate::ext::array::TryFromSliceError>) { unimplemented!() }
    }
    impl VTryInto<u8> for u16 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u8::MAX } open spec fn try_conv(self, u: u8) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u8, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u8> for u32 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u8::MAX } open spec fn try_conv(self, u: u8) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u8, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u8> for u64 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u8::MAX } open spec fn try_conv(self, u: u8) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u8, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u8> for u128 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u8::MAX } open spec fn try_conv(self, u: u8) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u8, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u16> for u32 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u16::MAX } open spec fn try_conv(self, u: u16) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u16, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u16> for u64 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u16::MAX } open spec fn try_conv(self, u: u16) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u16, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u16> for u128 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u16::MAX } open spec fn try_conv(self, u: u16) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u16, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u32> for u128 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u32::MAX } open spec fn try_conv(self, u: u32) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u32, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u64> for u128 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u64::MAX } open spec fn try_conv(self, u: u64) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u64, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<u64> for usize { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= u64::MAX } open spec fn try_conv(self, u: u64) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<u64, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<usize> for u32 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= usize::MAX } open spec fn try_conv(self, u: usize) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<usize, std::num::TryFromIntError>) { self.try_into() } }
    impl VTryInto<usize> for u64 { type E = std::num::TryFromIntError; open spec fn try_ok(self) -> bool { self as int <= usize::MAX } open spec fn try_conv(self, u: usize) -> bool { u as int == self as int } #[verifier::external_body] fn v_try_into(self) -> (r: Result<usize, std::num::TryFromIntError>) { self.try_into() } }

    // ---- further std functions (not used by the code as it is; for code that changes) --------
    pub assume_specification [<u8 as core::convert::From<bool>>::from] (b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 });
    pub assume_specification [<u16 as core::convert::From<bool>>::from] (b: bool) -> (r: u16) ensures r == (if b { 1u16 } else { 0u16 });
    pub assume_specification [<u32 as core::convert::From<bool>>::from] (b: bool) -> (r: u32) ensures r == (if b { 1u32 } else { 0u32 });
    pub assume_specification [<u64 as core::convert::From<bool>>::from] (b: bool) -> (r: u64) ensures r == (if b { 1u64 } else { 0u64 });
    pub assume_specification [<usize as core::convert::From<bool>>::from] (b: bool) -> (r: usize) ensures r == (if b { 1usize } else { 0usize });
    pub assume_specification<T,E>[Result::<T,E>::unwrap_or](r: Result<T,E>, d: T) -> (o: T) ensures o == (match r { Ok(v) => v, Err(_) => d });
    pub assume_specification<T,E,U>[Result::<T,E>::and](r: Result<T,E>, d: Result<U,E>) -> (o: Result<U,E>) ensures o == (match r { Ok(_) => d, Err(e) => Err(e) });
    pub assume_specification<T>[Option::<T>::or](r: Option<T>, d: Option<T>) -> (o: Option<T>) ensures o == (match r { Some(_) => r, None => d });
    pub assume_specification<T: Default,E>[Result::<T,E>::unwrap_or_default](r: Result<T,E>) -> (o: T) ensures r is Ok ==> o == r->Ok_0, r is Err ==> T::default.ensures((), o);
    pub trait VTake: Sized { spec fn is_default(&self) -> bool; fn v_dflt() -> (r: Self) ensures r.is_default(); }
    impl<T> VTake for Vec<T> { open spec fn is_default(&self) -> bool { self@.len() == 0 } fn v_dflt() -> (r: Self) { Vec::new() } }
    impl<T> VTake for Option<T> { open spec fn is_default(&self) -> bool { *self is None } fn v_dflt() -> (r: Self) { None } }
    impl VTake for u64 { open spec fn is_default(&self) -> bool { *self == 0 } fn v_dflt() -> (r: Self) { 0 } }
    impl VTake for u32 { open spec fn is_default(&self) -> bool { *self == 0 } fn v_dflt() -> (r: Self) { 0 } }
    impl<const N: usize> VTake for [u8; N] { open spec fn is_default(&self) -> bool { self@ == rep(0, N as nat) } #[verifier::external_body] fn v_dflt() -> (r: Self) { [0u8; N] } }
    #[verifier::external_body]
    pub fn v_take<T: VTake>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_default() { std::mem::replace(x, T::v_dflt()) }
    pub assume_specification<T> [core::mem::replace::<T>] (x: &mut T, v: T) -> (r: T) ensures r == *old(x), *final(x) == v;
    pub assume_specification<T> [core::mem::drop::<T>] (x: T);
    pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
        ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s@[i], x));
    pub trait VDrain<T>: Sized {
        spec fn dseq(&self) -> Seq<T>;
        fn v_drain_all(&mut self) -> (r: Vec<T>) ensures r@ == old(self).dseq(), final(self).dseq() == Seq::<T>::empty();
        fn v_drain_to(&mut self, n: usize) -> (r: Vec<T>)
            requires n <= old(self).dseq().len()
            ensures r@ == old(self).dseq().take(n as int), final(self).dseq() == old(self).dseq().skip(n as int);
    }
    impl<T> VDrain<T> for Vec<T> {
        open spec fn dseq(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn v_drain_all(&mut self) -> (r: Vec<T>) { self.drain(..).collect() }
        #[verifier::external_body]
        fn v_drain_to(&mut self, n: usize) -> (r: Vec<T>) { self.drain(..n).collect() }
    }
    pub trait VCharCount { spec fn ccount(&self) -> nat; fn v_char_count(&self) -> (r: usize) ensures r as nat == self.ccount(); }
    impl VCharCount for str {
        open spec fn ccount(&self) -> nat { self@.len() }
        #[verifier::external_body]
        fn v_char_count(&self) -> (r: usize) { self.chars().count() }
    }
    impl VCharCount for String {
        open spec fn ccount(&self) -> nat { self@.len() }
        #[verifier::external_body]
        fn v_char_count(&self) -> (r: usize) { self.chars().count() }
    }
    pub uninterp spec fn f32_is_nan(f: f32) -> bool;
    pub trait VNan { fn v_is_nan(&self) -> (r: bool); }
    impl VNan for f32 { #[verifier::external_body] fn v_is_nan(&self) -> (r: bool) ensures r == f32_is_nan(*self) { self.is_nan() } }
    #[verifier::external_body]
    pub fn v_f32_nan() -> (r: f32) ensures f32_bits(r) == 0x7fc00000 { f32::NAN }
    /// anything Vec<u8>::extend takes here
    pub trait VBytes: Sized { spec fn bseq(self) -> Seq<u8>; }
    impl VBytes for Vec<u8> { open spec fn bseq(self) -> Seq<u8> { self@ } }
    impl<'a> VBytes for &'a Vec<u8> { open spec fn bseq(self) -> Seq<u8> { self@ } }
    impl<'a> VBytes for &'a [u8] { open spec fn bseq(self) -> Seq<u8> { self@ } }
    impl<const N: usize> VBytes for [u8; N] { open spec fn bseq(self) -> Seq<u8> { self@ } }
    impl<'a, const N: usize> VBytes for &'a [u8; N] { open spec fn bseq(self) -> Seq<u8> { self@ } }
    #[verifier::external_body]
    pub fn v_vec_from<A: VBytes>(a: A) -> (r: Vec<u8>) ensures r@ == a.bseq() { unimplemented!() }
    pub trait VExtendAny: Sized { spec fn xseq(&self) -> Seq<u8>; fn v_extend<A: VBytes>(&mut self, a: A) ensures final(self).xseq() == old(self).xseq() + a.bseq(); }
    impl VExtendAny for Vec<u8> {
        open spec fn xseq(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn v_extend<A: VBytes>(&mut self, a: A) { unimplemented!() }
    }
    pub open spec fn cat<T: VBytes>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().bseq() } }
    pub trait VConcat: Sized { spec fn cseq(self) -> Seq<u8>; fn v_concat(self) -> (r: Vec<u8>) ensures r@ == self.cseq(); }
    impl<T: VBytes, const N: usize> VConcat for [T; N] {
        open spec fn cseq(self) -> Seq<u8> { cat(self@) }
        #[verifier::external_body]
        fn v_concat(self) -> (r: Vec<u8>) { unimplemented!() }
    }
    pub broadcast proof fn lemma_cat<T: VBytes>(s: Seq<T>)
        ensures
            s.len() == 2 ==> #[trigger] cat(s) == s[0].bseq() + s[1].bseq(),
            s.len() == 3 ==> cat(s) == s[0].bseq() + (s[1].bseq() + s[2].bseq()),
            s.len() == 4 ==> cat(s) == s[0].bseq() + (s[1].bseq() + (s[2].bseq() + s[3].bseq())),
    {
        reveal_with_fuel(cat, 5);
        if s.len() == 2 { assert(cat(s) =~= s[0].bseq() + s[1].bseq()); }
        if s.len() == 3 { assert(cat(s) =~= s[0].bseq() + (s[1].bseq() + s[2].bseq())); }
        if s.len() == 4 { assert(cat(s) =~= s[0].bseq() + (s[1].bseq() + (s[2].bseq() + s[3].bseq()))); }
    }

    // ---- strings -----------------------------------------------------------------------------
    /// UTF-8 bytes of a String
    pub open spec fn sbytes(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExUtf8Error(std::str::Utf8Error);
    /// the characters of a String are determined by its bytes; it is empty iff it has no bytes
    pub broadcast proof fn lemma_str_chars(s: String)
        ensures vstd::utf8::decode_utf8(#[trigger] sbytes(s)) == s@,
            vstd::utf8::valid_utf8(sbytes(s)),
            (sbytes(s).len() == 0) == (s@.len() == 0)
    {
        broadcast use vstd::utf8::group_utf8_lib;
        vstd::utf8::encode_utf8_decode_utf8(s@);
        vstd::utf8::encode_utf8_valid_utf8(s@);
        reveal_with_fuel(vstd::utf8::encode_utf8, 2);
        reveal_with_fuel(vstd::utf8::decode_utf8, 2);
    }
    pub assume_specification<T> [ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
        requires a < old(s)@.len(), b < old(s)@.len()
        ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
    pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ](x: Option<&'a T>) -> (r: Option<T>)
        ensures r == (match x { Some(v) => Some(*v), None => None::<T> });
    pub assume_specification [ String::len ](s: &String) -> (r: usize)
        ensures r as int == vstd::utf8::encode_utf8(s@).len();
    pub assume_specification [ String::as_bytes ](s: &String) -> (r: &[u8])
        ensures r@ == vstd::utf8::encode_utf8(s@);
    pub assume_specification [ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
        ensures r is Ok <==> vstd::utf8::valid_utf8(v@),
            r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == v@;
}
pub mod ext {
    use vstd::prelude::*;
    pub mod array {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Debug)]
        pub struct TryFromSliceError { x: u8 }
    }
    pub mod io {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Debug)]
        pub struct Error { x: u8 }
        pub type Result<T> = core::result::Result<T, Error>;
        /// io::Write with its documented contract; out() is what the writer has received.
        pub trait Write {
            spec fn out(&self) -> Seq<u8>;
            /// accepts every byte and never fails (an in-memory buffer)
            spec fn reliable(&self) -> bool;
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
                ensures
                    final(self).reliable() == old(self).reliable(),
                    crate::vshim::grew(old(self).out(), final(self).out()),
                    r is Ok ==> r->Ok_0 <= buf@.len() && final(self).out() == old(self).out() + buf@.take(r->Ok_0 as int),
                    r is Err ==> final(self).out() == old(self).out(),
                    old(self).reliable() ==> r is Ok && r->Ok_0 == buf@.len();
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
                ensures
                    final(self).reliable() == old(self).reliable(),
                    crate::vshim::grew(old(self).out(), final(self).out()),
                    r is Ok ==> final(self).out() == old(self).out() + buf@,
                    r is Err ==> exists|n: int| 0 <= n <= buf@.len() && final(self).out() == old(self).out() + #[trigger] buf@.take(n),
                    old(self).reliable() ==> r is Ok;
            fn flush(&mut self) -> (r: Result<()>)
                ensures
                    final(self).reliable() == old(self).reliable(),
                    final(self).out() == old(self).out(),
                    old(self).reliable() ==> r is Ok;
        }
        impl Write for Vec<u8> {
            open spec fn out(&self) -> Seq<u8> { self@ }
            open spec fn reliable(&self) -> bool { true }
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
        }
    }
    pub mod fmt {
        use vstd::prelude::*;
        pub use core::fmt::Debug;
        #[verifier::external_body]
        #[derive(Debug)]
        pub struct Error { x: u8 }
        pub type Result = core::result::Result<(), Error>;
        /// std::fmt::Formatter: out() is the text written so far, plain() that no width, precision or fill
        /// was asked for (as in `to_string()` and `{}`), reliable() that the text goes to memory.
        #[verifier::external_body]
        pub struct Formatter<'a> { x: &'a u8 }
        impl<'a> Formatter<'a> {
            pub uninterp spec fn out(&self) -> Seq<char>;
            pub uninterp spec fn plain(&self) -> bool;
            pub uninterp spec fn reliable(&self) -> bool;
            #[verifier::external_body]
            pub fn write_str(&mut self, s: &str) -> (r: Result)
                ensures final(self).plain() == old(self).plain(), final(self).reliable() == old(self).reliable(),
                    r is Ok ==> final(self).out() == old(self).out() + s@, old(self).reliable() ==> r is Ok
            { unimplemented!() }
            #[verifier::external_body]
            pub fn write_char(&mut self, c: char) -> (r: Result)
                ensures final(self).plain() == old(self).plain(), final(self).reliable() == old(self).reliable(),
                    r is Ok ==> final(self).out() == old(self).out().push(c), old(self).reliable() ==> r is Ok
            { unimplemented!() }
            #[verifier::external_body]
            pub fn pad(&mut self, s: &str) -> (r: Result)
                ensures final(self).plain() == old(self).plain(), final(self).reliable() == old(self).reliable(),
                    r is Ok && old(self).plain() ==> final(self).out() == old(self).out() + s@, old(self).reliable() ==> r is Ok
            { unimplemented!() }
        }
        /// std::fmt::Display; text() is what `{}` prints
        pub trait Display {
            spec fn text(&self) -> Seq<char>;
            fn fmt(&self, f: &mut Formatter) -> (r: Result)
                ensures final(f).plain() == old(f).plain(), final(f).reliable() == old(f).reliable(),
                    r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + self.text(),
                    old(f).reliable() ==> r is Ok;
        }
        impl Display for str {
            open spec fn text(&self) -> Seq<char> { self@ }
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { f.pad(self) }
        }
        impl Display for String {
            open spec fn text(&self) -> Seq<char> { self@ }
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { f.pad(self.as_str()) }
        }
        impl<'a, T: Display + ?Sized> Display for &'a T {
            open spec fn text(&self) -> Seq<char> { (**self).text() }
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { (**self).fmt(f) }
        }
        pub uninterp spec fn decimal(n: int) -> Seq<char>;
        impl Display for u8 {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for u16 {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for u32 {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for u64 {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for u128 {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for usize {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for i32 {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for i64 {
            open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
        impl Display for char {
            open spec fn text(&self) -> Seq<char> { seq![*self] }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
        }
    }
    pub mod time {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Debug)]
        pub struct SystemTimeError { x: u8 }
        #[verifier::external_body]
        pub struct Duration { x: u8 }
        #[verifier::external_body]
        pub struct SystemTime { x: u8 }
        /// t is a value the system clock returned (nanoseconds since the epoch)
        pub uninterp spec fn clock(t: int) -> bool;
        impl SystemTime {
            pub uninterp spec fn nanos(&self) -> int;
            #[verifier::external_body]
            pub exec const UNIX_EPOCH: SystemTime ensures SystemTime::UNIX_EPOCH.nanos() == 0 { SystemTime { x: 0 } }
            #[verifier::external_body]
            pub fn now() -> (r: SystemTime) ensures clock(r.nanos()) { unimplemented!() }
            #[verifier::external_body]
            pub fn duration_since(&self, earlier: SystemTime) -> (r: Result<Duration, SystemTimeError>)
                ensures r is Ok <==> self.nanos() >= earlier.nanos(),
                    r is Ok ==> r->Ok_0.nanos() == self.nanos() - earlier.nanos()
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub exec const UNIX_EPOCH: SystemTime ensures UNIX_EPOCH.nanos() == 0 { SystemTime { x: 0 } }
        impl Duration {
            pub uninterp spec fn nanos(&self) -> nat;
            #[verifier::external_body]
            pub fn as_secs(&self) -> (r: u64) ensures r as int == self.nanos() as int / 1000000000 { unimplemented!() }
            #[verifier::external_body]
            pub fn as_millis(&self) -> (r: u128) ensures r as int == self.nanos() as int / 1000000 { unimplemented!() }
            #[verifier::external_body]
            pub fn as_micros(&self) -> (r: u128) ensures r as int == self.nanos() as int / 1000 { unimplemented!() }
            #[verifier::external_body]
            pub fn as_nanos(&self) -> (r: u128) ensures r as int == self.nanos() as int { unimplemented!() }
            #[verifier::external_body]
            pub fn subsec_millis(&self) -> (r: u32) ensures r as int == (self.nanos() as int % 1000000000) / 1000000 { unimplemented!() }
            #[verifier::external_body]
            pub fn subsec_micros(&self) -> (r: u32) ensures r as int == (self.nanos() as int % 1000000000) / 1000 { unimplemented!() }
            #[verifier::external_body]
            pub fn subsec_nanos(&self) -> (r: u32) ensures r as int == self.nanos() as int % 1000000000 { unimplemented!() }
            #[verifier::external_body]
            pub fn from_secs(s: u64) -> (r: Self) ensures r.nanos() == s as int * 1000000000 { unimplemented!() }
        }
        impl Default for Duration {
            #[verifier::external_body]
            fn default() -> (r: Self) ensures r.nanos() == 0 { unimplemented!() }
        }
        impl SystemTimeError {
            #[verifier::external_body]
            pub fn duration(&self) -> (r: Duration) { unimplemented!() }
        }
    }
    pub mod sync {
        use vstd::prelude::*;
        /// std::sync::Mutex with its history: `log` is the list of critical sections this thread has
        /// been through, as (content on entry, content on exit). The content on entry is arbitrary:
        /// other threads may have changed it since the last section.
        pub struct Mutex<T> { pub data: T, pub log: Ghost<Seq<(T, T)>> }
        impl<T> Mutex<T> {
            pub fn new(data: T) -> (r: Self) ensures r.data == data, r.log@.len() == 0 { Mutex { data, log: Ghost(Seq::empty()) } }
            pub fn from(data: T) -> (r: Self) ensures r.data == data, r.log@.len() == 0 { Mutex { data, log: Ghost(Seq::empty()) } }
            pub fn default() -> (r: Self) where T: Default ensures T::default.ensures((), r.data), r.log@.len() == 0 { Mutex { data: T::default(), log: Ghost(Seq::empty()) } }
            /// lock().unwrap(): exclusive access to the content until the guard is dropped
            #[verifier::external_body]
            pub fn v_lock(&mut self) -> (g: &mut T)
                ensures final(self).log@ == old(self).log@.push((*g, *final(g))), final(self).data == *final(g)
            { unimplemented!() }
        }
    }
    pub mod hex {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Debug)]
        pub struct FromHexError { x: u8 }
        pub open spec fn digit(c: char) -> int {
            if '0' <= c && c <= '9' { c as int - '0' as int }
            else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
            else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 }
            else { -1 }
        }
        pub open spec fn is_hex(s: Seq<char>) -> bool {
            s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) >= 0
        }
        pub open spec fn unhex(s: Seq<char>) -> Seq<u8> {
            Seq::new((s.len() / 2) as nat, |i: int| (digit(s[2 * i]) * 16 + digit(s[2 * i + 1])) as u8)
        }
        #[verifier::external_body]
        pub fn decode(s: &str) -> (r: Result<Vec<u8>, FromHexError>)
            ensures r is Ok <==> is_hex(s@), r is Ok ==> r->Ok_0@ == unhex(s@)
        { unimplemented!() }
    }
    pub mod constant_time_eq {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub fn constant_time_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
    }
    pub mod zeroize {
        use vstd::prelude::*;
        pub open spec fn zeros(n: nat) -> Seq<u8> { crate::vshim::rep(0u8, n) }
        pub trait Zeroize {
            spec fn zseq(&self) -> Seq<u8>;
            fn zeroize(&mut self) ensures final(self).zseq() == zeros(old(self).zseq().len());
        }
        impl<const N: usize> Zeroize for [u8; N] {
            open spec fn zseq(&self) -> Seq<u8> { self@ }
            #[verifier::external_body]
            fn zeroize(&mut self) { unimplemented!() }
        }
        impl Zeroize for [u8] {
            open spec fn zseq(&self) -> Seq<u8> { self@ }
            #[verifier::external_body]
            fn zeroize(&mut self) { unimplemented!() }
        }
    }
    pub mod rand {
        use vstd::prelude::*;
        /// b is the whole output of one draw from a cryptographically secure source seeded by the system
        pub uninterp spec fn drawn(b: Seq<u8>) -> bool;
        /// x is one uniform draw from lo..hi
        pub uninterp spec fn drawn_in(x: int, lo: int, hi: int) -> bool;
        pub trait UInt: Sized { spec fn v(self) -> int; spec fn top() -> int; }
        impl UInt for u8 { open spec fn v(self) -> int { self as int } open spec fn top() -> int { 0x100 } }
        impl UInt for u16 { open spec fn v(self) -> int { self as int } open spec fn top() -> int { 0x10000 } }
        impl UInt for u32 { open spec fn v(self) -> int { self as int } open spec fn top() -> int { 0x1_0000_0000 } }
        impl UInt for u64 { open spec fn v(self) -> int { self as int } open spec fn top() -> int { 0x1_0000_0000_0000_0000 } }
        pub trait RngCore: Sized {
            /// seeded by the system, not by the program
            spec fn secure(&self) -> bool;
            fn fill_bytes(&mut self, b: &mut [u8])
                ensures final(b)@.len() == old(b)@.len(), old(self).secure() ==> drawn(final(b)@), final(self).secure() == old(self).secure();
            fn next_u32(&mut self) -> (r: u32)
                ensures old(self).secure() ==> drawn_in(r as int, 0, 0x1_0000_0000), final(self).secure() == old(self).secure();
            fn next_u64(&mut self) -> (r: u64)
                ensures old(self).secure() ==> drawn_in(r as int, 0, 0x1_0000_0000_0000_0000), final(self).secure() == old(self).secure();
        }
        pub trait Rng: RngCore {
            #[verifier::external_body]
            fn gen_range<T: UInt>(&mut self, lo: T, hi: T) -> (r: T)
                requires lo.v() < hi.v()
                ensures lo.v() <= r.v() < hi.v(), old(self).secure() ==> drawn_in(r.v(), lo.v(), hi.v()), final(self).secure() == old(self).secure()
            { unimplemented!() }
            #[verifier::external_body]
            fn r#gen<T: UInt>(&mut self) -> (r: T)
                ensures old(self).secure() ==> drawn_in(r.v(), 0, T::top()), final(self).secure() == old(self).secure()
            { unimplemented!() }
        }
        impl<T: RngCore> Rng for T {}
        #[verifier::external_body]
        pub struct ThreadRng { x: u8 }
        impl RngCore for ThreadRng {
            open spec fn secure(&self) -> bool { true }
            #[verifier::external_body]
            fn fill_bytes(&mut self, b: &mut [u8]) { unimplemented!() }
            #[verifier::external_body]
            fn next_u32(&mut self) -> (r: u32) { unimplemented!() }
            #[verifier::external_body]
            fn next_u64(&mut self) -> (r: u64) { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn thread_rng() -> ThreadRng { unimplemented!() }
        #[verifier::external_body]
        pub fn random<T: UInt>() -> (r: T) ensures drawn_in(r.v(), 0, T::top()) { unimplemented!() }
        pub trait SeedableRng: RngCore {
            fn seed_from_u64(x: u64) -> (r: Self);
            fn from_seed(x: [u8; 32]) -> (r: Self);
            fn from_entropy() -> (r: Self) ensures r.secure();
        }
        pub mod rngs {
            use vstd::prelude::*;
            pub use super::ThreadRng;
            pub struct OsRng;
            impl super::RngCore for OsRng {
                open spec fn secure(&self) -> bool { true }
                #[verifier::external_body]
                fn fill_bytes(&mut self, b: &mut [u8]) { unimplemented!() }
                #[verifier::external_body]
                fn next_u32(&mut self) -> (r: u32) { unimplemented!() }
                #[verifier::external_body]
                fn next_u64(&mut self) -> (r: u64) { unimplemented!() }
            }
            #[verifier::external_body]
            pub struct StdRng { x: u8 }
            impl super::RngCore for StdRng {
                uninterp spec fn secure(&self) -> bool;
                #[verifier::external_body]
                fn fill_bytes(&mut self, b: &mut [u8]) { unimplemented!() }
                #[verifier::external_body]
                fn next_u32(&mut self) -> (r: u32) { unimplemented!() }
                #[verifier::external_body]
                fn next_u64(&mut self) -> (r: u64) { unimplemented!() }
            }
            impl super::SeedableRng for StdRng {
                #[verifier::external_body]
                fn seed_from_u64(x: u64) -> (r: Self) { unimplemented!() }
                #[verifier::external_body]
                fn from_seed(x: [u8; 32]) -> (r: Self) { unimplemented!() }
                #[verifier::external_body]
                fn from_entropy() -> (r: Self) { unimplemented!() }
            }
        }
    }
    pub mod hacl_star {
        use vstd::prelude::*;
        pub mod curve25519 {
            use vstd::prelude::*;
            pub const SECRET_LENGTH: usize = 32;
            pub struct SecretKey(pub [u8; 32]);
            pub struct PublicKey(pub [u8; 32]);
            /// X25519 public key of a secret, and the shared secret
            pub uninterp spec fn pubkey(sk: Seq<u8>) -> Seq<u8>;
            pub uninterp spec fn x25519(sk: Seq<u8>, pk: Seq<u8>) -> Seq<u8>;
            #[verifier::external_body]
            pub broadcast proof fn axiom_len(sk: Seq<u8>, pk: Seq<u8>)
                ensures (#[trigger] x25519(sk, pk)).len() == 32, pubkey(sk).len() == 32 {}
            #[verifier::external_body]
            pub broadcast proof fn axiom_pub_len(sk: Seq<u8>)
                ensures (#[trigger] pubkey(sk)).len() == 32 {}
            /// Diffie-Hellman
            #[verifier::external_body]
            pub proof fn axiom_dh(a: Seq<u8>, b: Seq<u8>)
                requires a.len() == 32, b.len() == 32
                ensures x25519(a, pubkey(b)) == x25519(b, pubkey(a)) {}
            impl SecretKey {
                #[verifier::external_body]
                pub fn get_public(&self) -> (r: PublicKey) ensures r.0@ == pubkey(self.0@) { unimplemented!() }
            }
            #[verifier::external_body]
            pub fn keypair<R: crate::ext::rand::RngCore>(rng: R) -> (r: (SecretKey, PublicKey))
                ensures r.1.0@ == pubkey(r.0.0@), rng.secure() ==> crate::ext::rand::drawn(r.0.0@)
            { unimplemented!() }
            #[verifier::external_body]
            pub fn scalarmult(out: &mut [u8; 32], sk: &[u8; 32], pk: &[u8; 32])
                ensures final(out)@ == x25519(sk@, pk@)
            { unimplemented!() }
        }
        pub mod chacha20poly1305 {
            use vstd::prelude::*;
            pub const MAC_LENGTH: usize = 16;
            pub const NONCE_LENGTH: usize = 12;
            pub const KEY_LENGTH: usize = 32;
            /// ciphertext and tag of AEAD encryption
            pub uninterp spec fn ct(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
            pub uninterp spec fn tag(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
            /// decryption function (what the cipher yields) and tag check on the ciphertext
            pub uninterp spec fn pt(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, c: Seq<u8>) -> Seq<u8>;
            #[verifier::external_body]
            pub broadcast proof fn axiom_ct_len(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
                ensures (#[trigger] ct(k, n, ad, p)).len() == p.len() {}
            #[verifier::external_body]
            pub broadcast proof fn axiom_tag_len(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
                ensures (#[trigger] tag(k, n, ad, p)).len() == 16 {}
            #[verifier::external_body]
            pub broadcast proof fn axiom_pt_len(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, c: Seq<u8>)
                ensures (#[trigger] pt(k, n, ad, c)).len() == c.len() {}
            /// decryption inverts encryption
            #[verifier::external_body]
            pub broadcast proof fn axiom_inverse(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
                ensures pt(k, n, ad, #[trigger] ct(k, n, ad, p)) == p {}
            #[verifier::external_body]
            pub broadcast proof fn axiom_inverse2(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, c: Seq<u8>)
                ensures ct(k, n, ad, #[trigger] pt(k, n, ad, c)) == c {}
            pub struct Key { pub k: [u8; 32] }
            pub struct KeyNonce { pub k: [u8; 32], pub n: [u8; 12] }
            pub fn key(k: &[u8; 32]) -> (r: Key) ensures r.k@ == k@ { Key { k: *k } }
            impl Key {
                pub fn nonce(self, n: &[u8; 12]) -> (r: KeyNonce) ensures r.k == self.k, r.n@ == n@ { KeyNonce { k: self.k, n: *n } }
            }
            impl KeyNonce {
                #[verifier::external_body]
                pub fn encrypt(self, ad: &[u8], in_out: &mut [u8], mac: &mut [u8; 16])
                    ensures final(in_out)@ == ct(self.k@, self.n@, ad@, old(in_out)@),
                        final(mac)@ == tag(self.k@, self.n@, ad@, old(in_out)@)
                { unimplemented!() }
                /// true exactly if the tag is the tag of the recovered plaintext; a refused buffer is left alone
                #[verifier::external_body]
                pub fn decrypt(self, ad: &[u8], in_out: &mut [u8], mac: &[u8; 16]) -> (r: bool)
                    ensures r == (mac@ == tag(self.k@, self.n@, ad@, pt(self.k@, self.n@, ad@, old(in_out)@))),
                        final(in_out)@.len() == old(in_out)@.len(),
                        r ==> final(in_out)@ == pt(self.k@, self.n@, ad@, old(in_out)@)
                { unimplemented!() }
            }
        }
    }
    pub mod blake2_rfc {
        use vstd::prelude::*;
        pub mod blake2s {
            use vstd::prelude::*;
            pub uninterp spec fn blake2s(n: int, data: Seq<u8>) -> Seq<u8>;
            #[verifier::external_body]
            pub broadcast proof fn axiom_blake_len(n: int, d: Seq<u8>)
                requires 0 < n <= 32 ensures (#[trigger] blake2s(n, d)).len() == n {}
            #[verifier::external_body]
            pub struct Blake2s { x: u8 }
            #[verifier::external_body]
            pub struct Blake2sResult { x: u8 }
            impl Blake2s {
                pub uninterp spec fn n(&self) -> int;
                pub uninterp spec fn data(&self) -> Seq<u8>;
                #[verifier::external_body]
                pub fn new(n: usize) -> (r: Blake2s) requires 0 < n <= 32 ensures r.n() == n, r.data() == Seq::<u8>::empty() { unimplemented!() }
                #[verifier::external_body]
                pub fn update(&mut self, d: &[u8]) ensures final(self).n() == old(self).n(), final(self).data() == old(self).data() + d@ { unimplemented!() }
                #[verifier::external_body]
                pub fn finalize(self) -> (r: Blake2sResult) ensures r.bytes() == blake2s(self.n(), self.data()) { unimplemented!() }
            }
            impl Blake2sResult {
                pub uninterp spec fn bytes(&self) -> Seq<u8>;
                #[verifier::external_body]
                pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
            }
        }
    }
    pub mod bitcoin {
        use vstd::prelude::*;
        pub mod util {
            use vstd::prelude::*;
            pub mod base58 {
                use vstd::prelude::*;
                #[verifier::external_body]
                #[derive(Debug)]
                pub struct Error { x: u8 }
                pub uninterp spec fn b58(s: Seq<char>) -> Option<Seq<u8>>;
                #[verifier::external_body]
                pub fn from(s: &str) -> (r: Result<Vec<u8>, Error>)
                    ensures r is Ok <==> b58(s@) is Some, r is Ok ==> r->Ok_0@ == b58(s@)->Some_0
                { unimplemented!() }
            }
        }
    }
    pub mod ed25519_dalek {
        use vstd::prelude::*;
        pub mod ed25519 {
            use vstd::prelude::*;
            #[verifier::external_body]
            #[derive(Debug)]
            pub struct Error { x: u8 }
        }
        #[verifier::external_body]
        pub struct Keypair { x: u8 }
        #[verifier::external_body]
        pub struct PublicKey { x: u8 }
        #[verifier::external_body]
        pub struct Signature { x: u8 }
        /// signing is deterministic; verification of (key, message, signature)
        pub uninterp spec fn signed(secret: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
        pub uninterp spec fn valid_sig(public: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
        pub uninterp spec fn valid_key(public: Seq<u8>) -> bool;
        /// bytes that ed25519::Signature takes: 64 of them, the top three bits of the last one clear
        pub open spec fn sig_ok(b: Seq<u8>) -> bool { b.len() == 64 && b[63] < 32 }
        #[verifier::external_body]
        pub broadcast proof fn axiom_signed_len(sk: Seq<u8>, m: Seq<u8>) ensures (#[trigger] signed(sk, m)).len() == 64 {}
        impl Signature {
            pub uninterp spec fn sig(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub broadcast proof fn axiom_sig_len(&self) ensures (#[trigger] self.sig()).len() == 64, sig_ok(self.sig()) {}
            /// panics on bytes that are no signature
            #[verifier::external_body]
            pub fn new(b: [u8; 64]) -> (r: Signature) requires sig_ok(b@) ensures r.sig() == b@ { unimplemented!() }
            #[verifier::external_body]
            pub fn from_bytes(b: &[u8]) -> (r: Result<Signature, ed25519::Error>)
                ensures r is Ok <==> sig_ok(b@), r is Ok ==> r->Ok_0.sig() == b@
            { unimplemented!() }
            #[verifier::external_body]
            pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r@ == self.sig() { unimplemented!() }
        }
        impl Keypair {
            pub uninterp spec fn secret(&self) -> Seq<u8>;
            pub uninterp spec fn public_bytes(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub proof fn axiom_sign_verifies(&self, m: Seq<u8>)
                ensures valid_sig(self.public_bytes(), m, signed(self.secret(), m)) {}
            #[verifier::external_body]
            pub fn generate<R: crate::ext::rand::RngCore>(rng: &mut R) -> (r: Keypair)
                ensures old(rng).secure() ==> crate::ext::rand::drawn(r.secret()), final(rng).secure() == old(rng).secure()
            { unimplemented!() }
        }
        impl PublicKey {
            pub uninterp spec fn key(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn from_bytes(b: &[u8]) -> (r: Result<PublicKey, ed25519::Error>)
                ensures r is Ok <==> (b@.len() == 32 && valid_key(b@)), r is Ok ==> r->Ok_0.key() == b@
            { unimplemented!() }
        }
        pub trait Signer { spec fn sk(&self) -> Seq<u8>; fn sign(&self, m: &[u8]) -> (r: Signature) ensures r.sig() == signed(self.sk(), m@); }
        pub trait Verifier { spec fn vk(&self) -> Seq<u8>; fn verify(&self, m: &[u8], s: &Signature) -> (r: Result<(), ed25519::Error>) ensures r is Ok <==> valid_sig(self.vk(), m@, s.sig()); }
        impl Signer for Keypair {
            open spec fn sk(&self) -> Seq<u8> { self.secret() }
            #[verifier::external_body]
            fn sign(&self, m: &[u8]) -> (r: Signature) { unimplemented!() }
        }
        impl Verifier for PublicKey {
            open spec fn vk(&self) -> Seq<u8> { self.key() }
            #[verifier::external_body]
            fn verify(&self, m: &[u8], s: &Signature) -> (r: Result<(), ed25519::Error>) { unimplemented!() }
        }
    }
}
