// Unit: difficulty retargeting (common/src/block/tree.rs).
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub type Height = u64;
pub type BlockTime = u32;
pub type Bits = u32;
pub type Target = Uint256;

pub mod dep {
use vstd::prelude::*;
//@@ include shim_uint.rs
//@@ include shim_header.rs
//@@ include shim_params.rs
}
use dep::*;
broadcast use {dep::axiom_u256, dep::lemma_wrap_range, dep::lemma_wrap_small};

//@@ include spec_retarget.rs

pub trait BlockReader {
    /// the header a retarget computation must look at, for each height (genesis when there is none)
    spec fn at(&self, h: int) -> BlockHeader;
    spec fn has(&self, h: int) -> bool;

    fn get_block_by_height(&self, height: Height) -> (r: Option<&BlockHeader>)
        ensures r.is_some() == self.has(height as int), r.is_some() ==> *r.unwrap() == self.at(height as int);
    fn genesis(&self) -> (r: &BlockHeader)
        ensures forall|h: int| !self.has(h) ==> #[trigger] self.at(h) == *r;

//@@ fn common/src/block/tree.rs | trait BlockReader / fn next_difficulty_target
//@ spec:
    requires
        params.wf(),
        last_height < u64::MAX,
        last_target.v() <= params.pow_limit.v(),
    ensures
        r == spec_next_bits(self.at(sat_sub(last_height as int, params.interval() - 1)), last_height as int, last_time as int, last_target.v(), *params),
//@ closure 0: || -> (g: &BlockHeader) ensures forall|h: int| !self.has(h) ==> #[trigger] self.at(h) == *g
//@ entry:
    proof { lemma_mul_bound(last_target.v() as int, params.pow_limit.v() as int, params.pow_target_timespan as int); }
//@@ end
}

} // verus!
fn main() {}
