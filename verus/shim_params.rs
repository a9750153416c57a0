// ---- consensus parameters (dependency: bitcoin::consensus::params::Params) ----
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Network { Bitcoin, Testnet, Signet, Regtest }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Network {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Network) -> bool { *self == *o }
}
pub struct Params {
    pub network: Network,
    pub pow_limit: Uint256,
    pub pow_target_spacing: u64,
    pub pow_target_timespan: u64,
    pub allow_min_difficulty_blocks: bool,
    pub no_pow_retargeting: bool,
}
impl Params {
    pub open spec fn interval(&self) -> int { self.pow_target_timespan as int / self.pow_target_spacing as int }
    /// what holds of Params::new(network) for all four networks (checked natively on every run)
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.pow_target_spacing <= self.pow_target_timespan
        &&& self.pow_target_timespan * 4 <= u32::MAX
        &&& self.interval() > 0
        &&& self.no_pow_retargeting || self.pow_limit.v() * (4 * self.pow_target_timespan as int) < p256()
    }
    #[verifier::external_body]
    pub fn difficulty_adjustment_interval(&self) -> (r: u64)
        requires self.pow_target_spacing > 0
        ensures r as int == self.interval()
    { unimplemented!() }
}
