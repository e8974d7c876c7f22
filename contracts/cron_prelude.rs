// ---- TRUSTED: the parts of chrono and intervals-rs the crate uses. An instant is its nanoseconds since the epoch and its zone.
pub trait TimeZone: Sized + Clone {}
pub trait TimeZoneOps: TimeZone {
  fn timestamp_millis_opt(&self, ms: i64) -> (r: LocalResult<DateTime<Self>>)
    ensures r.single() is Some && r.single()->0 == at(*self, ms * 1_000_000);
}
impl<Tz: TimeZone> TimeZoneOps for Tz {
  #[verifier::external_body]
  fn timestamp_millis_opt(&self, ms: i64) -> LocalResult<DateTime<Self>> { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct LocalResult<T> { x: Option<T> }
impl<T> LocalResult<T> {
  pub uninterp spec fn single(&self) -> Option<T>;
  #[verifier::external_body]
  pub fn unwrap(self) -> (r: T) requires self.single() is Some ensures r == self.single()->0 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(Tz)]
pub struct DateTime<Tz: TimeZone> { x: i64, tz: Tz }
#[verifier::external_body]
#[verifier::reject_recursive_types(Tz)]
pub struct Date<Tz: TimeZone> { x: i64, tz: Tz }
#[verifier::external_body]
pub struct NaiveTime { x: i64 }
#[verifier::external_body]
pub struct NaiveDate { x: i64 }
#[verifier::external_body]
pub struct NaiveDateTime { x: i64 }
#[verifier::external_body]
pub struct Weekday { x: i64 }
#[verifier::external_body]
pub struct Duration { x: i64 }
pub type TimeDelta = Duration;

pub uninterp spec fn at<Tz: TimeZone>(tz: Tz, ns: int) -> DateTime<Tz>;
/// the calendar fields of an instant in its zone
pub struct Cal { pub year: int, pub month: int, pub day: int, pub hour: int, pub min: int, pub sec: int, pub dow: int }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn dim(y: int, m: int) -> int {
  if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
pub open spec fn cal_ok(c: Cal) -> bool {
  -262143 <= c.year <= 262141 && 1 <= c.month <= 12 && 1 <= c.day <= dim(c.year, c.month) && 0 <= c.hour < 24 && 0 <= c.min < 60 && 0 <= c.sec < 60 && 1 <= c.dow <= 7
}
impl<Tz: TimeZone> Date<Tz> {
  pub uninterp spec fn cal(&self) -> Cal;
  #[verifier::external_body]
  pub fn year(&self) -> (r: i32) ensures r == self.cal().year, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn month(&self) -> (r: u32) ensures r == self.cal().month, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn month0(&self) -> (r: u32) ensures r == self.cal().month - 1, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn day(&self) -> (r: u32) ensures r == self.cal().day, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn day0(&self) -> (r: u32) ensures r == self.cal().day - 1, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn weekday(&self) -> (r: Weekday) ensures r.dow() == self.cal().dow, cal_ok(self.cal()) { unimplemented!() }
}
impl NaiveTime {
  pub uninterp spec fn cal(&self) -> Cal;
  #[verifier::external_body]
  pub fn hour(&self) -> (r: u32) ensures r == self.cal().hour, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn minute(&self) -> (r: u32) ensures r == self.cal().min, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn second(&self) -> (r: u32) ensures r == self.cal().sec, cal_ok(self.cal()) { unimplemented!() }
}
impl Weekday {
  /// Sunday is 1
  pub uninterp spec fn dow(&self) -> int;
  #[verifier::external_body]
  pub fn number_from_sunday(&self) -> (r: u32) ensures r == self.dow() { unimplemented!() }
  #[verifier::external_body]
  pub fn num_days_from_sunday(&self) -> (r: u32) ensures r == self.dow() - 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn number_from_monday(&self) -> (r: u32) ensures r == (self.dow() + 5) % 7 + 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn num_days_from_monday(&self) -> (r: u32) ensures r == (self.dow() + 5) % 7 { unimplemented!() }
}
impl<Tz: TimeZone> DateTime<Tz> {
  pub uninterp spec fn ns(&self) -> int;
  pub uninterp spec fn zone(&self) -> Tz;
  pub uninterp spec fn cal(&self) -> Cal;
  #[verifier::external_body]
  pub fn date(&self) -> (r: Date<Tz>) ensures r.cal() == self.cal() { unimplemented!() }
  #[verifier::external_body]
  pub fn time(&self) -> (r: NaiveTime) ensures r.cal() == self.cal() { unimplemented!() }
  #[verifier::external_body]
  pub fn year(&self) -> (r: i32) ensures r == self.cal().year, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn month(&self) -> (r: u32) ensures r == self.cal().month, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn day(&self) -> (r: u32) ensures r == self.cal().day, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn weekday(&self) -> (r: Weekday) ensures r.dow() == self.cal().dow, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn hour(&self) -> (r: u32) ensures r == self.cal().hour, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn minute(&self) -> (r: u32) ensures r == self.cal().min, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn timestamp_millis(&self) -> (r: i64) ensures r == self.ns() / 1_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn timestamp(&self) -> (r: i64) ensures r == self.ns() / 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn second(&self) -> (r: u32) ensures r == self.cal().sec, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn month0(&self) -> (r: u32) ensures r == self.cal().month - 1, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn day0(&self) -> (r: u32) ensures r == self.cal().day - 1, cal_ok(self.cal()) { unimplemented!() }
  #[verifier::external_body]
  pub fn timezone(&self) -> (r: Tz) ensures r == self.zone() { unimplemented!() }
}
impl<Tz: TimeZone> Clone for DateTime<Tz> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Duration {
  pub uninterp spec fn ns(&self) -> int;
  #[verifier::external_body]
  pub fn minutes(n: i64) -> (r: Duration) requires -100_000_000_000 <= n <= 100_000_000_000 ensures r.ns() == n * MINUTE() { unimplemented!() }
  #[verifier::external_body]
  pub fn seconds(n: i64) -> (r: Duration) requires -1_000_000_000_000 <= n <= 1_000_000_000_000 ensures r.ns() == n * 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn hours(n: i64) -> (r: Duration) requires -1_000_000_000 <= n <= 1_000_000_000 ensures r.ns() == n * 60 * MINUTE() { unimplemented!() }
  #[verifier::external_body]
  pub fn days(n: i64) -> (r: Duration) requires -10_000_000 <= n <= 10_000_000 ensures r.ns() == n * DAY() { unimplemented!() }
  #[verifier::external_body]
  pub fn milliseconds(n: i64) -> (r: Duration) ensures r.ns() == n * 1_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn num_hours(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / (60 * MINUTE()) { unimplemented!() }
  #[verifier::external_body]
  pub fn num_minutes(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / MINUTE() { unimplemented!() }
  #[verifier::external_body]
  pub fn num_milliseconds(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / 1_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn num_days(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / DAY() { unimplemented!() }
  #[verifier::external_body]
  pub fn num_seconds(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / 1_000_000_000 { unimplemented!() }
}
pub open spec fn MINUTE() -> int { 60_000_000_000 }
pub open spec fn DAY() -> int { 86_400_000_000_000 }
impl<Tz: TimeZone> vstd::std_specs::ops::AddSpecImpl<Duration> for DateTime<Tz> {
  open spec fn obeys_add_spec() -> bool { true }
  // TRUSTED: instants stay inside chrono's range
  open spec fn add_req(self, rhs: Duration) -> bool { true }
  open spec fn add_spec(self, rhs: Duration) -> DateTime<Tz> { at(self.zone(), self.ns() + rhs.ns()) }
}
impl<Tz: TimeZone> std::ops::Add<Duration> for DateTime<Tz> {
  type Output = DateTime<Tz>;
  #[verifier::external_body]
  fn add(self, rhs: Duration) -> DateTime<Tz> { unimplemented!() }
}
impl<Tz: TimeZone> vstd::std_specs::cmp::PartialEqSpecImpl for DateTime<Tz> {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &DateTime<Tz>) -> bool { self.ns() == o.ns() }
}
impl<Tz: TimeZone> PartialEq for DateTime<Tz> { #[verifier::external_body] fn eq(&self, o: &DateTime<Tz>) -> bool { unimplemented!() } }
impl<Tz: TimeZone> vstd::std_specs::cmp::PartialOrdSpecImpl for DateTime<Tz> {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &DateTime<Tz>) -> Option<std::cmp::Ordering> {
    if self.ns() < o.ns() { Some(std::cmp::Ordering::Less) } else if self.ns() == o.ns() { Some(std::cmp::Ordering::Equal) } else { Some(std::cmp::Ordering::Greater) }
  }
}
impl<Tz: TimeZone> PartialOrd for DateTime<Tz> { #[verifier::external_body] fn partial_cmp(&self, o: &DateTime<Tz>) -> Option<std::cmp::Ordering> { unimplemented!() } }

// days since 0000-12-31 in the proleptic Gregorian calendar
pub open spec fn before_year(y: int) -> int { 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 }
pub open spec fn before_month(y: int, m: int) -> int {
  (if m == 1 { 0int } else if m == 2 { 31 } else if m == 3 { 59 } else if m == 4 { 90 } else if m == 5 { 120 } else if m == 6 { 151 }
  else if m == 7 { 181 } else if m == 8 { 212 } else if m == 9 { 243 } else if m == 10 { 273 } else if m == 11 { 304 } else { 334 })
  + if m > 2 && leap(y) { 1int } else { 0 }
}
pub open spec fn day_number(y: int, m: int, d: int) -> int { before_year(y) + before_month(y, m) + d }
impl NaiveDate {
  pub uninterp spec fn number(&self) -> int;
  #[verifier::external_body]
  pub fn from_ymd(year: i32, month: u32, day: u32) -> (r: NaiveDate)
    requires -262143 <= year <= 262142, 1 <= month <= 12, 1 <= day <= dim(year as int, month as int)
    ensures r.number() == day_number(year as int, month as int, day as int)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn from_ymd_opt(year: i32, month: u32, day: u32) -> (r: Option<NaiveDate>)
    ensures (-262143 <= year <= 262142 && 1 <= month <= 12 && 1 <= day <= dim(year as int, month as int)) ==> r is Some && r->0.number() == day_number(year as int, month as int, day as int)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn signed_duration_since(self, o: NaiveDate) -> (r: Duration) ensures r.ns() == (self.number() - o.number()) * DAY() { unimplemented!() }
}

#[verifier::reject_recursive_types(T)]
pub enum LimitValue<T> { Limit(T), Limitless }
#[verifier::external_body]
pub struct IntervalsError { x: u8 }
#[verifier::external]
impl std::fmt::Debug for IntervalsError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<T> LimitValue<T> {
  #[verifier::external_body]
  pub fn as_value(&self) -> (r: Result<&T, IntervalsError>)
    ensures match *self { LimitValue::Limit(v) => r is Ok && *(r->Ok_0) == v, LimitValue::Limitless => r is Err }
  { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Interval<T> { x: Vec<T> }
impl<T> Interval<T> {
  pub uninterp spec fn lo(&self) -> LimitValue<T>;
  pub uninterp spec fn hi(&self) -> LimitValue<T>;
  #[verifier::external_body]
  pub fn closed(a: LimitValue<T>, b: LimitValue<T>) -> (r: Interval<T>) ensures r.lo() == a, r.hi() == b { unimplemented!() }
  #[verifier::external_body]
  pub fn has_upper_limit(&self) -> (r: bool) ensures r == (self.hi() is Limit) { unimplemented!() }
  #[verifier::external_body]
  pub fn has_lower_limit(&self) -> (r: bool) ensures r == (self.lo() is Limit) { unimplemented!() }
  #[verifier::external_body]
  pub fn as_upper_limit(&self) -> (r: &LimitValue<T>) ensures *r == self.hi() { unimplemented!() }
  #[verifier::external_body]
  pub fn as_lower_limit(&self) -> (r: &LimitValue<T>) ensures *r == self.lo() { unimplemented!() }
}

// TRUSTED: derived Clone
impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Clone for CronInterval<Tz, S> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CronExpr {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CronSpecification {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- what an expression means
pub open spec fn field_holds(e: CronExpr, now: u8, max: u8) -> bool
  decreases e
{
  match e {
    CronExpr::AnyValueExpr => true,
    CronExpr::LastValueExpr => now == max,
    CronExpr::ValueExpr(n) => now == n,
    CronExpr::ListExpr(l) => exists|i: int| 0 <= i < l@.len() && field_holds(#[trigger] l@[i], now, max),
    CronExpr::RangeExpr { from, to, per_option } => match (*from, *to) {
      (CronExpr::ValueExpr(a), CronExpr::ValueExpr(b)) => match *per_option {
        CronExpr::NoOp => a <= now <= b,
        CronExpr::ValueExpr(k) => k > 0 && stepped(a as int, b as int, k as int, now as int),
        _ => false,
      },
      _ => false,
    },
    CronExpr::PerExpr { digit, option } => match (*digit, *option) {
      (CronExpr::AnyValueExpr, CronExpr::ValueExpr(k)) => k > 0 && stepped(0, max as int, k as int, now as int),
      _ => false,
    },
    _ => false,
  }
}
/// 1 is Sunday; the last day of the month is its maximum
pub open spec fn matches_at(e: CronExpr, c: Cal) -> bool {
  match e {
    CronExpr::CronExpr { mins, hours, days, months, day_of_weeks } =>
      field_holds(*mins, c.min as u8, 59) && field_holds(*hours, c.hour as u8, 23) && field_holds(*days, c.day as u8, dim(c.year, c.month) as u8)
      && field_holds(*months, c.month as u8, 12) && field_holds(*day_of_weeks, c.dow as u8, 7),
    _ => false,
  }
}
pub uninterp spec fn parsed(text: Seq<char>) -> Option<CronExpr>;

// ---- instants one minute apart
pub open spec fn later<Tz: TimeZone>(t: DateTime<Tz>, k: int) -> DateTime<Tz> { if k == 0 { t } else { at(t.zone(), t.ns() + k * MINUTE()) } }
pub open spec fn end_of(l: LimitValue<i64>) -> Option<int> { match l { LimitValue::Limit(ms) => Some(ms * 1_000_000), LimitValue::Limitless => None } }
pub open spec fn past<Tz: TimeZone>(end: Option<int>, t: DateTime<Tz>) -> bool { end is Some && t.ns() > end->0 }
/// t is the first instant, k minutes after t0, that satisfies s
pub open spec fn none_before<Tz: TimeZone, S: Specification<DateTime<Tz>>>(s: S, t0: DateTime<Tz>, k: int) -> bool {
  forall|j: int| 0 <= j < k ==> !s.sat(#[trigger] later(t0, j))
}
pub mod vx_lemmas {
  use super::*;
  verus! {
  pub broadcast axiom fn axiom_at<Tz: TimeZone>(tz: Tz, ns: int)
    ensures (#[trigger] at(tz, ns)).ns() == ns, at(tz, ns).zone() == tz;
  pub broadcast proof fn lemma_later_later<Tz: TimeZone>(t: DateTime<Tz>, k: int)
    ensures (#[trigger] later(t, k)).ns() == t.ns() + k * MINUTE(), later(t, k).zone() == t.zone()
  { broadcast use axiom_at; }
  }
}
