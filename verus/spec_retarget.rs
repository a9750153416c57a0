/// The consensus rule, written from the Bitcoin protocol, not from the code.
pub open spec fn clamp_span(actual: int, timespan: int) -> int {
    if actual < timespan / 4 { timespan / 4 } else if actual > timespan * 4 { timespan * 4 } else { actual }
}
pub open spec fn sat_sub(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
pub open spec fn spec_next_bits(first: BlockHeader, last_height: int, last_time: int, last_target: nat, p: Params) -> Bits {
    let n = p.interval();
    if (last_height + 1) % n != 0 {
        compact_of(last_target)
    } else if p.no_pow_retargeting {
        first.bits
    } else {
        let span = clamp_span(sat_sub(last_time, first.time as int), p.pow_target_timespan as int);
        let t = ((last_target * span) / (p.pow_target_timespan as int)) as nat;
        compact_of(if t > p.pow_limit.v() { p.pow_limit.v() } else { t })
    }
}
