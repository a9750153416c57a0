// ---- net/src/time.rs: the struct is extracted; derived comparisons (one field: comparison of the field) are written out ----
//@@ struct net/src/time.rs | struct LocalTime
//@ attr: #[derive(Copy, Clone)]
//@@ end
//@@ struct net/src/time.rs | struct LocalDuration
//@ attr: #[derive(Copy, Clone)]
//@ subst: ( u128 ) =>> (pub u128)
//@@ end
pub open spec fn ord(a: int, b: int) -> Option<core::cmp::Ordering> {
    if a < b { Some(core::cmp::Ordering::Less) } else if a == b { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
}
impl LocalTime { pub open spec fn ms(&self) -> int { self.millis as int } }
impl LocalDuration { pub open spec fn ms(&self) -> int { self.0 as int } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for LocalTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LocalTime) -> bool { self.ms() == o.ms() }
}
impl PartialEq for LocalTime { fn eq(&self, o: &LocalTime) -> (r: bool) { self.millis == o.millis } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for LocalTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &LocalTime) -> Option<core::cmp::Ordering> { ord(self.ms(), o.ms()) }
}
impl PartialOrd for LocalTime {
    fn partial_cmp(&self, o: &LocalTime) -> (r: Option<core::cmp::Ordering>) {
        if self.millis < o.millis { Some(core::cmp::Ordering::Less) } else if self.millis == o.millis { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LocalDuration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LocalDuration) -> bool { self.ms() == o.ms() }
}
impl PartialEq for LocalDuration { fn eq(&self, o: &LocalDuration) -> (r: bool) { self.0 == o.0 } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for LocalDuration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &LocalDuration) -> Option<core::cmp::Ordering> { ord(self.ms(), o.ms()) }
}
impl PartialOrd for LocalDuration {
    fn partial_cmp(&self, o: &LocalDuration) -> (r: Option<core::cmp::Ordering>) {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) } else if self.0 == o.0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl LocalTime {
//@@ fn net/src/time.rs | impl LocalTime / fn from_secs
//@ sigsubst: fn =>> const fn
//@ spec:
    ensures r.ms() == secs * 1000
//@@ end
//@@ fn net/src/time.rs | impl LocalTime / fn as_secs
//@ spec:
    requires self.ms() / 1000 <= u64::MAX
    ensures r == self.ms() / 1000
//@@ end
//@@ fn net/src/time.rs | impl LocalTime / fn duration_since
//@ spec:
    requires self.ms() >= earlier.ms()
    ensures r.ms() == self.ms() - earlier.ms()
//@@ end
//@@ fn net/src/time.rs | impl LocalTime / fn diff
//@ spec:
    ensures r.ms() == (if self.ms() >= other.ms() { self.ms() - other.ms() } else { other.ms() - self.ms() })
//@@ end
//@@ fn net/src/time.rs | impl LocalTime / fn elapse
//@ spec:
    requires old(self).ms() + duration.ms() <= u128::MAX
    ensures final(self).ms() == old(self).ms() + duration.ms()
//@@ end
}
impl LocalDuration {
//@@ fn net/src/time.rs | impl LocalDuration / fn from_secs
//@ sigsubst: fn =>> const fn
//@ spec:
    ensures r.ms() == secs * 1000
//@@ end
//@@ fn net/src/time.rs | impl LocalDuration / fn from_mins
//@ sigsubst: fn =>> const fn
//@ spec:
    requires mins * 60 <= u64::MAX
    ensures r.ms() == mins * 60 * 1000
//@@ end
//@@ fn net/src/time.rs | impl LocalDuration / fn from_millis
//@ sigsubst: fn =>> const fn
//@ spec:
    ensures r.ms() == millis
//@@ end
//@@ fn net/src/time.rs | impl LocalDuration / fn as_millis
//@ spec:
    ensures r == self.ms()
//@@ end
}
impl vstd::std_specs::ops::SubSpecImpl<LocalTime> for LocalTime {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: LocalTime) -> bool { true }
    open spec fn sub_spec(self, o: LocalTime) -> LocalDuration { LocalDuration((if self.ms() >= o.ms() { self.ms() - o.ms() } else { 0 }) as u128) }
}
impl std::ops::Sub<LocalTime> for LocalTime {
    type Output = LocalDuration;
//@@ fn net/src/time.rs | impl std :: ops :: Sub for LocalTime / fn sub
//@@ end
}
impl vstd::std_specs::ops::AddSpecImpl<LocalDuration> for LocalTime {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: LocalDuration) -> bool { self.ms() + o.ms() <= u128::MAX }
    open spec fn add_spec(self, o: LocalDuration) -> LocalTime { LocalTime { millis: (self.ms() + o.ms()) as u128 } }
}
impl std::ops::Add<LocalDuration> for LocalTime {
    type Output = LocalTime;
//@@ fn net/src/time.rs | impl std :: ops :: Add for LocalTime / fn add
//@@ end
}
