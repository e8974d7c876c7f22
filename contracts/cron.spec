== get_days_from_month
props: C12
req[month]: 1 <= $1 <= 12 && -262143 <= $0 <= 262141
ens[length]: res == dim($0 as int, $1 as int)
== CronEnvironment::new
props: C12
ens[new]: res.now == $0 && res.max == $1
== CronEvaluator::new
props: C12
ens[new]: res.instant == $0
== CronEvaluator::visit
props: C12
ens[field]: res == field_holds(*$1, $0.now, $0.max)
clo[vx_any#0] ens: $r == field_holds(*$c0, env.now, env.max)
clo[vx_any#0] ret: bool
== CronEvaluator::eval
props: C12
ens[all-fields]: res == matches_at(*$0, self.instant.cal())
== CronSpecification::new
props: C12
ens[new]: res.expr == $0
== trait Specification
super: Clone
extra: spec fn sat(&self, arg: T) -> bool;
== Specification::is_satisfied_by
props: C12
ens[sat]: res == self.sat(*$0)
== impl Specification for CronSpecification
extra: open spec fn sat(&self, arg: DateTime<Tz>) -> bool { matches_at(self.expr, arg.cal()) }
== Specification for CronSpecification::is_satisfied_by
props: C12
== CronInterval::convert_to_long_limit_value
props: C13
ens[ms]: match $0 { LimitValue::Limit(v) => res == LimitValue::<i64>::Limit((v.ns() / 1_000_000) as i64), LimitValue::Limitless => res is Limitless }
== CronInterval::new
props: C13
ens[spec]: res.cron_specification == $2
ens[lower]: match $0 { LimitValue::Limit(v) => res.underlying.lo() == LimitValue::<i64>::Limit((v.ns() / 1_000_000) as i64), LimitValue::Limitless => res.underlying.lo() is Limitless }
ens[upper]: match $1 { LimitValue::Limit(v) => res.underlying.hi() == LimitValue::<i64>::Limit((v.ns() / 1_000_000) as i64), LimitValue::Limitless => res.underlying.hi() is Limitless }
== CronInterval::iter
props: C13
req[lower]: self.underlying.lo() is Limit
ens[start]: res.next == at($0, self.underlying.lo()->Limit_0 * 1_000_000) && res.curr == res.next && res.timezone == $0 && *res.cron_interval == *self
== CronIntervalIterator::new
props: C13
ens[new]: res.timezone == $0 && res.curr == $1 && res.next == $2 && res.cron_interval == $3
== CronIntervalIterator::timezone
props: C13
ens[get]: *res == self.timezone
== CronIntervalIterator::cron_interval
props: C13
ens[get]: res == self.cron_interval
== CronIntervalIterator::end_value
props: C13
ens[end]: match end_of(self.cron_interval.underlying.hi()) { Some(e) => res is Some && res->0.ns() == e, None => res is None }
== CronIntervalIterator::proceed_next
props: C13
req[next]: old(self).next == later(old(self).curr, 1)
ens[frame]: final(self).cron_interval == old(self).cron_interval && final(self).timezone == old(self).timezone
ens[first]: exists|k: int| k >= 0 && final(self).curr == #[trigger] later(old(self).curr, k) && final(self).next == later(old(self).curr, k + 1)
  && none_before(final(self).cron_interval.cron_specification, old(self).curr, k)
  && (final(self).cron_interval.cron_specification.sat(final(self).curr) || past(end_of(final(self).cron_interval.underlying.hi()), final(self).curr))
pre: assert(self.curr == later(self.curr, 0));
loop[0] inv[frame]: self.cron_interval == old(self).cron_interval && self.timezone == old(self).timezone
loop[0] inv[walk]: exists|k: int| k >= 0 && self.curr == #[trigger] later(old(self).curr, k) && self.next == later(old(self).curr, k + 1) && none_before(self.cron_interval.cron_specification, old(self).curr, k)
== Iterator for CronIntervalIterator::next
props: C13
rettype: Option<DateTime<Tz>>
ens[frame]: final(self).cron_interval == old(self).cron_interval && final(self).timezone == old(self).timezone
ens[first-satisfying]: res is Some ==> exists|k: int| k >= 0 && res->0 == #[trigger] later(old(self).next, k) && final(self).next == later(old(self).next, k + 1)
  && none_before(final(self).cron_interval.cron_specification, old(self).next, k)
  && final(self).cron_interval.cron_specification.sat(res->0) && !past(end_of(final(self).cron_interval.underlying.hi()), res->0)
ens[none-left]: res is None ==> past(end_of(final(self).cron_interval.underlying.hi()), final(self).next)
  && forall|k: int| k >= 0 && !past(end_of(final(self).cron_interval.underlying.hi()), #[trigger] later(old(self).next, k)) ==> !final(self).cron_interval.cron_specification.sat(later(old(self).next, k))
== CronParser::parse
props: C14
bounded: the grammar is decided in the unit cron-grammar and by the harness
ens[text]: match res { Ok(e) => parsed($0@) == Some(e), Err(_) => parsed($0@) is None }
== CronSchedule::new
props: C13
ens[parsed]: match res { Ok(s) => parsed($0@) == Some(s.expr), Err(_) => parsed($0@) is None }
== CronSchedule::cron_interval
props: C13
ens[interval]: res.cron_specification.expr == self.expr && res.underlying.lo() == LimitValue::<i64>::Limit(($0.ns() / 1_000_000) as i64) && res.underlying.hi() is Limitless
== CronSchedule::upcoming
props: C13
ens[start]: res.next == at($0.zone(), ($0.ns() / 1_000_000) as i64 * 1_000_000) && res.cron_interval.cron_specification.expr == self.expr && res.cron_interval.underlying.hi() is Limitless
