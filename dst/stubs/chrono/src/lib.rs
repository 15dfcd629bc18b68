use std::fmt;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct DateTime(i64);
pub struct Utc;
pub struct Local;
fn now() -> DateTime {
    DateTime(if simrt::in_task() { simrt::wall_ns() } else { simrt::WALL_BASE_NS })
}
impl Utc { pub fn now() -> DateTime { now() } }
impl Local { pub fn now() -> DateTime { now() } }
impl DateTime {
    pub fn timestamp(&self) -> i64 { self.0 / 1_000_000_000 }
    pub fn timestamp_millis(&self) -> i64 { self.0 / 1_000_000 }
    pub fn timestamp_micros(&self) -> i64 { self.0 / 1000 }
    pub fn timestamp_nanos_opt(&self) -> Option<i64> { Some(self.0) }
    pub fn timestamp_nanos(&self) -> i64 { self.0 }
    pub fn format(&self, _f: &str) -> Formatted { Formatted(*self) }
}
pub struct Formatted(DateTime);
impl fmt::Display for Formatted {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = self.0.timestamp().rem_euclid(86400);
        write!(f, "{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60)
    }
}
