// ---- assumed contracts on bitcoin::util::uint::Uint256 (dependency; arithmetic modulo 2^256) ----
pub open spec fn p256() -> int { 0x1_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000int }

#[verifier::external_body]
pub struct Uint256 { x: [u64; 4] }

impl Uint256 {
    pub uninterp spec fn raw(&self) -> nat;
    pub open spec fn v(&self) -> nat { wrap(self.raw() as int) as nat }
}

/// n modulo 2^256
#[verifier::opaque]
pub open spec fn wrap(n: int) -> int { n % p256() }

pub broadcast proof fn lemma_wrap_range(n: int) ensures 0 <= #[trigger] wrap(n) < p256() { reveal(wrap); }
pub broadcast proof fn lemma_wrap_small(n: int) requires 0 <= n < p256() ensures #[trigger] wrap(n) == n { reveal(wrap); }
pub broadcast proof fn lemma_wrap_add(a: int, b: int) ensures #[trigger] wrap(wrap(a) + b) == wrap(a + b) { reveal(wrap); }
pub broadcast proof fn lemma_wrap_sub(a: int, b: int) ensures #[trigger] wrap(wrap(a) - b) == wrap(a - b) { reveal(wrap); }

/// the Uint256 whose value is n mod 2^256
pub uninterp spec fn u256(n: int) -> Uint256;

pub broadcast axiom fn axiom_u256(n: int)
    ensures (#[trigger] u256(n)).v() == wrap(n);

pub axiom fn axiom_u256_ext(a: Uint256, b: Uint256)
    requires a.v() == b.v()
    ensures a == b;

impl Clone for Uint256 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Uint256 {}

impl vstd::std_specs::ops::AddSpecImpl<Uint256> for Uint256 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Uint256) -> bool { true }
    open spec fn add_spec(self, o: Uint256) -> Uint256 { u256(self.v() as int + o.v() as int) }
}
impl std::ops::Add for Uint256 {
    type Output = Uint256;
    #[verifier::external_body]
    fn add(self, o: Uint256) -> Uint256 { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Uint256> for Uint256 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Uint256) -> bool { true }
    open spec fn sub_spec(self, o: Uint256) -> Uint256 { u256(self.v() - o.v()) }
}
impl std::ops::Sub for Uint256 {
    type Output = Uint256;
    #[verifier::external_body]
    fn sub(self, o: Uint256) -> Uint256 { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<Uint256> for Uint256 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Uint256) -> bool { o.v() != 0 }
    open spec fn div_spec(self, o: Uint256) -> Uint256 { u256(self.v() as int / o.v() as int) }
}
impl std::ops::Div for Uint256 {
    type Output = Uint256;
    #[verifier::external_body]
    fn div(self, o: Uint256) -> Uint256 { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Uint256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Uint256) -> bool { self.v() == o.v() }
}
impl PartialEq for Uint256 {
    #[verifier::external_body]
    fn eq(&self, o: &Uint256) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Uint256 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Uint256) -> Option<std::cmp::Ordering> {
        if self.v() < o.v() { Some(std::cmp::Ordering::Less) }
        else if self.v() == o.v() { Some(std::cmp::Ordering::Equal) }
        else { Some(std::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for Uint256 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Uint256) -> Option<std::cmp::Ordering> { unimplemented!() }
}

impl Uint256 {
    #[verifier::external_body]
    pub fn mul_u32(self, other: u32) -> (r: Uint256)
        ensures r.v() == wrap((self.v() * other as nat) as int)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn from_u64(init: u64) -> (r: Option<Uint256>)
        ensures r.is_some(), r.unwrap().v() == init as nat
    { unimplemented!() }

    #[verifier::external_body]
    pub fn zero() -> (r: Uint256) ensures r.v() == 0 { unimplemented!() }

    #[verifier::external_body]
    pub fn default() -> (r: Uint256) ensures r.v() == 0 { unimplemented!() }
}

pub proof fn lemma_mul_bound(a: int, m: int, t: int)
    requires 0 <= a <= m, t > 0,
    ensures
        forall|s: int| 0 <= s <= 4 * t ==> 0 <= #[trigger] (a * s) <= m * (4 * t),
        forall|s: int| 0 <= s <= 4 * t ==> 0 <= #[trigger] ((a * s) / t) <= m * 4,
{
    assert forall|s: int| 0 <= s <= 4 * t implies 0 <= #[trigger] (a * s) <= m * (4 * t) by {
        assert(0 <= a * s <= m * (4 * t)) by (nonlinear_arith) requires 0 <= a <= m, 0 <= s <= 4 * t;
    }
    assert forall|s: int| 0 <= s <= 4 * t implies 0 <= #[trigger] ((a * s) / t) <= m * 4 by {
        assert(0 <= a * s <= m * (4 * t)) by (nonlinear_arith) requires 0 <= a <= m, 0 <= s <= 4 * t;
        assert(0 <= (a * s) / t <= m * 4) by (nonlinear_arith) requires 0 <= a * s <= m * (4 * t), t > 0;
    }
}
