# ---- states
== ParseState::new
props: C10
ens[state]: res.input == $0 && res.offset == $1
== ParseState::last_offset
props: C10 C03
ens[previous]: res == (if self.offset > 0 { Some((self.offset - 1) as usize) } else { None })
== ParseState::current_offset
props: C10 C03
ens[offset]: res == self.offset
== ParseState::advance_by
props: C01 C10
req[room]: self.offset + $0 <= usize::MAX
ens[advance]: res == adv(*self, $0 as int)
== ParseState::input
props: C01 C10
req[wf]: self.wf()
ens[rest]: res@ == rest(*self)
== ParseState::slice_with_len
props: C07 C10
req[wf]: self.wf() && $0 <= rem(*self)
ens[slice]: res@ == rest(*self).take($0 as int)

# ---- committed status, errors, results
== CommittedStatus::is_committed
props: C02
ens[is]: res == (*self is Committed)
== CommittedStatus::is_uncommitted
props: C02
ens[is]: res == (*self is Uncommitted)
== CommittedStatus::or
props: C02
ens[or]: res == cmt(*self is Committed || $0 is Committed)
== From for CommittedStatus::from
props: C02
ens[from]: res == cmt($0)
== ParseError::input
props: C10
pre: broadcast use vx_lemmas::lemma_sub_sub;
ens[subrange]: res is Some ==> err_input(*self, res->0@)
clo[and_then#0] ret: Option<&'a [I]>
clo[and_then#0] ens: ($r is Some ==> *length <= $c0@.len() && $r->0@ == $c0@.subrange(0, *length as int))
clo[and_then#1] ret: Option<&'a [I]>
clo[and_then#1] ens: ($r is Some ==> *length <= $c0@.len() && $r->0@ == $c0@.subrange(0, *length as int))
== ParseError::is_expect
props: C09
ens[is]: res == (*self is Expect)
== ParseError::is_custom
props: C09
ens[is]: res == (*self is Custom)
== ParseError::is_mismatch
props: C10
ens[is]: res == (*self is Mismatch)
== ParseError::is_conversion
props: C10
ens[is]: res == (*self is Conversion)
== ParseError::is_in_complete
props: C10
ens[is]: res == (*self is Incomplete)
== ParseError::of_expect
props: C09
ens[is]: res == (ParseError::<'a, I>::Expect { offset: $0, inner: $1, message: $2 })
== ParseError::of_custom
props: C09
ens[is]: res == (ParseError::<'a, I>::Custom { offset: $0, inner: $1, message: $2 })
== ParseError::of_mismatch
props: C10
ens[is]: res == (ParseError::<'a, I>::Mismatch { input: $0, offset: $1, length: $2, message: $3 })
== ParseError::of_conversion
props: C10
ens[is]: res == (ParseError::<'a, I>::Conversion { input: $0, offset: $1, length: $2, message: $3 })
== ParseError::of_in_complete
props: C10
ens[is]: res is Incomplete
== ParseResult::successful
props: C01
ens[is]: ok(res, $0, $1 as int)
== ParseResult::failed
props: C02
ens[is]: res is Failure && res->error == $0 && res->committed_status == $1
== ParseResult::failed_with_uncommitted
props: C02
ens[is]: res is Failure && res->error == $0 && res->committed_status is Uncommitted
== ParseResult::failed_with_commit
props: C02
ens[is]: res is Failure && res->error == $0 && res->committed_status is Committed
== ParseResult::to_result
props: C01
ens[is]: match self { ParseResult::Success { value, .. } => res == Ok::<A, ParseError<'a, I>>(value), ParseResult::Failure { error, .. } => res == Err::<A, ParseError<'a, I>>(error) }
== ParseResult::is_success
props: C01
ens[is]: res == (*self is Success)
== ParseResult::is_failure
props: C01
ens[is]: res == (*self is Failure)
== ParseResult::success
props: C01
ens[is]: match self { ParseResult::Success { value, .. } => res == Some(value), ParseResult::Failure { .. } => res is None }
== ParseResult::failure
props: C01
ens[is]: match self { ParseResult::Success { .. } => res is None, ParseResult::Failure { error, .. } => res == Some(error) }
== ParseResult::committed_status
props: C02
ens[is]: match *self { ParseResult::Success { .. } => res is None, ParseResult::Failure { committed_status, .. } => res == Some(committed_status) }
== ParseResult::with_uncommitted
props: C02
ens[is]: match self { ParseResult::Success { .. } => res == self, ParseResult::Failure { error, .. } => unc(res) && res->error == error }
== ParseResult::add_commit
props: C02
ens[is]: match self { ParseResult::Success { .. } => res == self, ParseResult::Failure { error, committed_status } => res is Failure && res->error == error && res->committed_status == cmt(committed_status is Committed || $0) }
== ParseResult::flat_map
props: C01
req[total]: forall|a: A, n: usize| #[trigger] $0.requires((a, n))
ens[is]: match self { ParseResult::Success { value, length } => $0.ensures((value, length), res), ParseResult::Failure { .. } => fail_as(self, res) }
== ParseResult::map
props: C01
req[total]: forall|a: A, n: usize| #[trigger] $0.requires((a, n))
ens[is]: match self { ParseResult::Success { value, length } => res is Success && $0.ensures((value, length), (res->value, res->length)), ParseResult::Failure { .. } => fail_as(self, res) }
clo[flat_map#0] ty0: A
clo[flat_map#0] ty1: usize
clo[flat_map#0] ret: ParseResult<'a, I, B>
clo[flat_map#0] ens: $r is Success && $0.ensures(($c0, $c1), ($r->value, $r->length))
== ParseResult::map_err
props: C02
req[total]: forall|e: &ParseError<'a, I>| #[trigger] $0.requires((e,))
ens[is]: match self { ParseResult::Success { .. } => res == self, ParseResult::Failure { error, committed_status } => res is Failure && $0.ensures((&error,), res->error) && res->committed_status == committed_status }
== ParseResult::advance_success
props: C01 C10
req[room]: self is Success ==> self->length + $0 <= usize::MAX
ens[is]: match self { ParseResult::Success { value, length } => ok(res, value, length + $0), ParseResult::Failure { .. } => res == self }

# ---- running
== ParsersImpl::parse
props: C01
req[wf]: $1@.len() <= isize::MAX
ens[value]: exists|r1: ParseResult<'a, I, A>| #[trigger] $0.post(ParseState { input: $1, offset: 0 }, r1) && match r1 { ParseResult::Success { value, .. } => res == Ok::<A, ParseError<'a, I>>(value), ParseResult::Failure { .. } => res is Err }
== ParserParsers::parse
props: C01
req[wf]: $1@.len() <= isize::MAX
ens[value]: exists|r1: ParseResult<'a, I, A>| #[trigger] $0.post(ParseState { input: $1, offset: 0 }, r1) && match r1 { ParseResult::Success { value, .. } => res == Ok::<A, ParseError<'a, I>>(value), ParseResult::Failure { .. } => res is Err }
clo[ok_or_else#0] ret: ParseError<'a, I>
clo[ok_or_else#0] ens: true
== Parser::parse
props: C01
req[wf]: $0@.len() <= isize::MAX
ens[run]: self.post(ParseState { input: $0, offset: 0 }, res)
== Parser::run
trusted: the stored closure is called
== Parser::parse_as_result
props: C01
req[wf]: $0@.len() <= isize::MAX
ens[value]: exists|r1: ParseResult<'a, I, A>| #[trigger] self.post(ParseState { input: $0, offset: 0 }, r1) && match r1 { ParseResult::Success { value, .. } => res == Ok::<A, ParseError<'a, I>>(value), ParseResult::Failure { error, .. } => res == Err::<A, ParseError<'a, I>>(error) }

# ---- basic
== ParsersImpl::unit , ParserParsers::unit , unit , empty , begin , ParsersImpl::empty , ParsersImpl::begin
props: C01
rel[unit]: ok($r, (), 0)
== ParsersImpl::successful , ParserParsers::successful , successful
props: C01
rel[value]: ok($r, $0, 0)
== ParsersImpl::successful_lazy , ParserParsers::successful_lazy , successful_lazy , Parser::pure
props: C01
req[total]: total0($0)
rel[value]: $r is Success && $r->length == 0 && $0.ensures((), $r->value)
== ParsersImpl::failed , ParserParsers::failed , failed
props: C02
rel[failure]: $r is Failure && $r->error == $0 && $r->committed_status == $1
== failed_with_commit
props: C02
rel[failure]: $r is Failure && $r->error == $0 && $r->committed_status is Committed
== failed_with_uncommit
props: C02
rel[failure]: $r is Failure && $r->error == $0 && $r->committed_status is Uncommitted
== ParsersImpl::failed_lazy , ParserParsers::failed_lazy , failed_lazy
props: C02
req[total]: total0($0)
rel[failure]: $r is Failure && $0.ensures((), ($r->error, $r->committed_status))
== ParsersImpl::end , end
props: C01 C03
rel[end]: if rem($s) == 0 { ok($r, (), 0) } else { unc($r) }
== ParsersImpl::filter
props: C11
req[total]: totalr($1)
rel[filter]: filter_post($0, $1, $s, $r)
== ParserParsers::filter
props: C11
req[total]: totalr($1)
rel[filter]: filter_any_post($0, $1, $s, $r)
clo[flat_map#0] ret: Parser<'a, I, A>
clo[flat_map#0] ens: forall|vs: ParseState<'a, I>, vr: ParseResult<'a, I, A>| #[trigger] $r.post(vs, vr) ==> (($1.ensures((&$c0,), true) && ok(vr, $c0, 0)) || ($1.ensures((&$c0,), false) && vr is Failure))
== Parser::with_filter
props: C11
req[total]: totalr($0)
rel[filter]: filter_post(self, $0, $s, $r)
== Parser::with_filter_not
props: C11
req[total]: totalr($0)
rel[filter-not]: filter_not_post(self, $0, $s, $r)
clo[with_filter#0] ret: bool
clo[with_filter#0] ens: $0.ensures(($c0,), !$r)
== ParsersImpl::flat_map , ParserParsers::flat_map
props: C01 C02
req[total]: total_on($0, $1)
rel[flat-map]: flat_map_post($0, $1, $s, $r)
== Parser::flat_map
props: C01 C02
req[total]: total_on(self, $0)
rel[flat-map]: flat_map_post(self, $0, $s, $r)
== ParsersImpl::map , ParserParsers::map
props: C01
req[total]: total_on($0, $1)
rel[map]: map_post($0, $1, $s, $r)
== Parser::map
props: C01
req[total]: total_on(self, $0)
rel[map]: map_post(self, $0, $s, $r)

# ---- operators
== ParsersImpl::exists
props: C03
rel[exists]: exists_post($0, $s, $r)
== Parser::exists
props: C03
rel[exists]: exists_post(self, $s, $r)
== ParsersImpl::not
props: C03
rel[not]: not_post($0, $s, $r)
== Parser::not , Parser::op_not
props: C03
rel[not]: not_post(self, $s, $r)
== ParsersImpl::or
props: C02
rel[or]: or_post($0, $1, $s, $r)
== Parser::or , Parser::op_bitor
props: C02
rel[or]: or_post(self, $0, $s, $r)
== ParsersImpl::and_then
props: C01
rel[and-then]: and_then_post($0, $1, $s, $r)
== Parser::and_then , Parser::op_add
props: C01
rel[and-then]: and_then_post(self, $0, $s, $r)
== ParsersImpl::attempt
props: C02
rel[attempt]: attempt_post($0, $s, $r)
== Parser::attempt
props: C02
rel[attempt]: attempt_post(self, $s, $r)
== ParsersImpl::opt
props: C02
rel[opt]: opt_post($0, $s, $r)
clo[map#0] ret: Option<A>
== Parser::opt
props: C02
rel[opt]: opt_post(self, $s, $r)
== ParsersImpl::peek
props: C03
rel[peek]: peek_post($0, $s, $r)
== Parser::peek
props: C03
rel[peek]: peek_post(self, $s, $r)
== ParsersImpl::discard
props: C01
rel[discard]: discard_post($0, $s, $r)
== Parser::discard
props: C01
rel[discard]: discard_post(self, $s, $r)
== ParsersImpl::collect
props: C03
rel[collect]: collect_post($0, $s, $r)
== Parser::collect
props: C03
rel[collect]: collect_post(self, $s, $r)
== ParsersImpl::last_offset
props: C03
rel[last-offset]: offset_post($0, true, $s, $r)
== Parser::last_offset
props: C03
rel[last-offset]: offset_post(self, true, $s, $r)
== ParsersImpl::next_offset
props: C03
rel[next-offset]: offset_post($0, false, $s, $r)
== Parser::next_offset
props: C03
rel[next-offset]: offset_post(self, false, $s, $r)
== ParsersImpl::skip_left
props: C01
rel[skip-left]: skip_left_post($0, $1, $s, $r)
== Parser::skip_left , Parser::op_mul
props: C01
rel[skip-left]: skip_left_post(self, $0, $s, $r)
== ParsersImpl::skip_right
props: C01
rel[skip-right]: skip_right_post($0, $1, $s, $r)
== Parser::skip_right , Parser::op_sub
props: C01
rel[skip-right]: skip_right_post(self, $0, $s, $r)
== ParsersImpl::surround , surround
props: C01
rel[surround]: surround_post($0, $1, $2, $s, $r)
== Parser::surround
props: C01
rel[surround]: surround_post($0, self, $1, $s, $r)
== ParsersImpl::skip , skip
props: C07
rel[skip]: if rem($s) >= $0 { ok($r, (), $0 as int) } else { unc($r) }

# ---- conversions
== ParsersImpl::map_res
props: C11
req[total]: total_on($0, $1)
rel[map-res]: map_res_post($0, $1, $s, $r)
== Parser::map_res
props: C11
req[total]: total_on(self, $0)
rel[map-res]: map_res_post(self, $0, $s, $r)
== ParsersImpl::map_opt
props: C11
req[total]: total_on($0, $1)
rel[map-opt]: map_opt_post($0, $1, $s, $r)

# ---- wrappers
== ParsersImpl::log
props: C09
rel[same]: $0.post($s, $r)
clo[log_map#0] ret: String
clo[log_map#0] ens: true
== ParsersImpl::log_map
props: C09
req[total]: totalr($3)
rel[same]: $0.post($s, $r)
== Parser::log , Parser::debug , Parser::info , Parser::warn , Parser::error
props: C09
rel[same]: self.post($s, $r)
== ParsersImpl::name
props: C09
rel[relabel]: relabel_post($0, $s, $r)
== Parser::name
props: C09
rel[relabel]: relabel_post(self, $s, $r)
== ParsersImpl::expect
props: C09
rel[relabel]: relabel_post($0, $s, $r)
== ParsersImpl::lazy , lazy
props: C09
req[total]: total0($0)
rel[lazy]: lazy_post($0, $s, $r)
== ParsersImpl::cache
props: C09
rel[same]: $0.post($s, $r)
bounded: shared mutable table behind RefCell and a hash map keyed by address
== Parser::cache
props: C09
rel[same]: self.post($s, $r)

# ---- repetition
== ParsersImpl::repeat_sep
props: C04
rel[repeat]: repeat_post($0, $1, $2, $s, $r)
clo[new#0] pre: proof { assert(rep_of($0, hi_of($1.hi()), $2, *$c0)); }
loop[0] inve[items]: %vec@.len() > 0 && items_at($0, $2, $s, %vec@, %int as int) && %state == adv($s, %int as int) && %int <= rem($s) && (hi_of($1.hi()) is Some ==> %vec@.len() <= hi_of($1.hi())->0)
loop[0] ens[stopped]: %vec@.len() > 0 && rep_end($0, hi_of($1.hi()), $2, $s, %vec@, %int as int) && %int <= rem($s)
loop[0] post: proof { assert(rep_end($0, hi_of($1.hi()), $2, $s, %vec@, %int as int)); }
== ParsersImpl::repeat
props: C04
rel[repeat]: repeat_post($0, $1, None::<Parser<'a, I, ()>>, $s, $r)
== ParsersImpl::many0 , Parser::of_many0
props: C04
rel[many0]: rep_post(@0, 0, None, None::<Parser<'a, I, ()>>, $s, $r)
== ParsersImpl::many1 , Parser::of_many1
props: C04
rel[many1]: rep_post(@0, 1, None, None::<Parser<'a, I, ()>>, $s, $r)
== ParsersImpl::count , Parser::of_count
props: C04
rel[count]: rep_post(@0, @1 as int, Some(@1 as int), None::<Parser<'a, I, ()>>, $s, $r)
== ParsersImpl::many0_sep , Parser::of_many0_sep
props: C04
rel[many0-sep]: rep_post(@0, 0, None, Some(@1), $s, $r)
== ParsersImpl::many1_sep , Parser::of_many1_sep
props: C04
rel[many1-sep]: rep_post(@0, 1, None, Some(@1), $s, $r)
== Parser::repeat
props: C04
rel[repeat]: repeat_post(self, $0, None::<Parser<'a, I, ()>>, $s, $r)
== Parser::of_rep_sep
props: C04
rel[repeat]: repeat_post(self, $0, $1, $s, $r)
== Parser::of_many_n_m
props: C04
rel[n-m]: rep_post(self, $0 as int, Some($1 as int), None::<Parser<'a, I, ()>>, $s, $r)
== Parser::of_many_n_m_sep
props: C04
rel[n-m]: rep_post(self, $0 as int, Some($1 as int), Some($2), $s, $r)
== Parser::of_count_sep
props: C04
rel[count]: rep_post(self, $0 as int, Some($0 as int), Some($1), $s, $r)

# ---- chains
== ParsersImpl::chain_left1
props: C08
req[total]: ops_total::<A, BOP>()
rel[left]: left_chain_post::<I, A, BOP>(@0, @1, $s, $r)
clo[flat_map#0] ret: Parser<'a, I, A>
clo[flat_map#0] ens: forall|vs: ParseState<'a, I>, vr: ParseResult<'a, I, A>| #[trigger] $r.post(vs, vr) ==> left_rest_post::<I, A, BOP>(@0, @1, $c0, vs, vr)
== Parser::chain_left1
props: C08
req[total]: ops_total::<A, BOP>()
rel[left]: left_chain_post::<I, A, BOP>(@0, @1, $s, $r)
== ParsersImpl::rest_left1
props: C08
req[total]: ops_total::<A, BOP>()
rel[left]: left_rest_post::<I, A, BOP>(@0, @1, @2, $s, $r)
clo[new#0] rel[step]: left_step_post::<I, A, BOP>(@0, @1, @2, $s, $r)
== Parser::rest_left1
props: C08
req[total]: ops_total::<A, BOP>()
rel[left]: left_rest_post::<I, A, BOP>(@0, @1, @2, $s, $r)
== ParsersImpl::chain_right1
props: C08
req[total]: ops_total::<A, BOP>()
rel[right]: right_chain_post::<I, A, BOP>(@0, @1, $s, $r)
clo[flat_map#0] ret: Parser<'a, I, A>
clo[flat_map#0] ens: forall|vs: ParseState<'a, I>, vr: ParseResult<'a, I, A>| #[trigger] $r.post(vs, vr) ==> right_rest_post::<I, A, BOP>(@0, @1, $c0, vs, vr)
== Parser::chain_right1 , Parser::scan_right1
props: C08
req[total]: ops_total::<A, BOP>()
rel[right]: right_chain_post::<I, A, BOP>(@0, @1, $s, $r)
== ParsersImpl::rest_right1
props: C08
req[total]: ops_total::<A, BOP>()
rel[right]: right_rest_post::<I, A, BOP>(@0, @1, @2, $s, $r)
clo[flat_map#0] ret: Parser<'a, I, A>
clo[flat_map#0] ens: forall|vs: ParseState<'a, I>, vr: ParseResult<'a, I, A>| #[trigger] $r.post(vs, vr) ==> right_tail_post::<I, A, BOP>(@0, @1, $c0, @2, vs, vr)
pre: proof { assert(right_rest_of(@0, @1, @2)); }
clo[map#0] ret: A
clo[map#0] ens: $p0.ensures((@2, $c0), $r)
== Parser::rest_right1
props: C08
req[total]: ops_total::<A, BOP>()
rel[right]: right_rest_post::<I, A, BOP>(@0, @1, @2, $s, $r)
== ParsersImpl::chain_left0 , Parser::chain_left0
props: C08
req[total]: ops_total::<A, BOP>()
rel[left0]: exists|r1: ParseResult<'a, I, A>| #[trigger] left_chain_post::<I, A, BOP>(@0, @1, $s, r1) && if unc(r1) { ok($r, @2, 0) } else { $r == r1 }
== ParsersImpl::chain_right0 , Parser::chain_right0
props: C08
req[total]: ops_total::<A, BOP>()
rel[right0]: exists|r1: ParseResult<'a, I, A>| #[trigger] right_chain_post::<I, A, BOP>(@0, @1, $s, r1) && if unc(r1) { ok($r, @2, 0) } else { $r == r1 }

# ---- elements
== trait Element
super: PartialEq + PartialOrd + Copy + 'static
extra: spec fn code(&self) -> int;
== impl Element for u8
extra: open spec fn code(&self) -> int { *self as int }
== impl Element for char
extra: open spec fn code(&self) -> int { *self as u32 as int }
== Element::to_char
props: C05
ens[code]: self.code() == res as u32
== Element::is_ascii_space
props: C05
ens[class]: res == c_space(self.code())
== Element::is_ascii_multi_space
props: C05
ens[class]: res == c_multi_space(self.code())
== Element::is_ascii_whitespace
props: C05
ens[class]: res == c_white(self.code())
== Element::is_ascii
props: C05
ens[class]: res == (self.code() <= 127)
== Element::is_ascii_alpha_uppercase
props: C05
ens[class]: res == c_upper(self.code())
== Element::is_ascii_alpha_lowercase
props: C05
ens[class]: res == c_lower(self.code())
== Element::is_ascii_alpha
props: C05
ens[class]: res == c_alpha(self.code())
== Element::is_ascii_digit
props: C05
ens[class]: res == c_digit(self.code())
== Element::is_ascii_digit_zero
props: C05
ens[class]: res == (self.code() == '0' as u32)
== Element::is_ascii_digit_non_zero
props: C05
ens[class]: res == (c_digit(self.code()) && self.code() != '0' as u32)
== Element::is_ascii_alpha_digit
props: C05
ens[class]: res == c_alnum(self.code())
== Element::is_ascii_hex_digit
props: C05
ens[class]: res == c_hex(self.code())
== Element::is_ascii_oct_digit
props: C05
ens[class]: res == c_oct(self.code())
== Element::is_ascii_punctuation
props: C05
ens[class]: res == c_punct(self.code())
== Element::is_ascii_graphic
props: C05
ens[class]: res == c_graphic(self.code())
== Element::is_ascii_control
props: C05
ens[class]: res == c_control(self.code())
== Element for u8::is_ascii
props: C05
pre: let vx_b: u8 = *self; assert((vx_b & 128 == 0) == (vx_b <= 127)) by (bit_vector);

== Set::to_str
props: C10
== trait Set
extra: spec fn has(&self, x: T) -> bool;
extra: spec fn lawful(&self) -> bool;
== Set::contains
props: C05
ens[member]: self.lawful() ==> res == self.has(*$0)
== impl Set for [T]
extra: open spec fn has(&self, x: T) -> bool { exists|i: int| 0 <= i < self@.len() && eqv(#[trigger] self@[i], x) }
extra: open spec fn lawful(&self) -> bool { T::obeys_eq_spec() }
== impl Set for str
extra: open spec fn has(&self, x: char) -> bool { self@.contains(x) }
extra: open spec fn lawful(&self) -> bool { true }
== impl Set for RangeFull
extra: open spec fn has(&self, x: T) -> bool { true }
extra: open spec fn lawful(&self) -> bool { true }
== impl Set for Range
extra: open spec fn has(&self, x: T) -> bool { lev(self.start, x) && ltv(x, self.end) }
extra: open spec fn lawful(&self) -> bool { ordered::<T>() }
== impl Set for RangeInclusive
extra: open spec fn has(&self, x: T) -> bool { lev(self@.start, x) && lev(x, self@.end) }
extra: open spec fn lawful(&self) -> bool { ordered::<T>() }
== impl Set for RangeFrom
extra: open spec fn has(&self, x: T) -> bool { lev(self.start, x) }
extra: open spec fn lawful(&self) -> bool { ordered::<T>() }
== impl Set for RangeTo
extra: open spec fn has(&self, x: T) -> bool { ltv(x, self.end) }
extra: open spec fn lawful(&self) -> bool { ordered::<T>() }
== impl Set for RangeToInclusive
extra: open spec fn has(&self, x: T) -> bool { lev(x, self.end) }
extra: open spec fn lawful(&self) -> bool { ordered::<T>() }

== Set for str::contains
props: C05
bounded: str::contains takes a Pattern, a trait the verifier does not know
== trait RangeArgument
extra: spec fn lo(&self) -> Bound<'_, T>;
extra: spec fn hi(&self) -> Bound<'_, T>;
== RangeArgument::start
props: C04
ens[lower]: res == self.lo()
== RangeArgument::end
props: C04
ens[upper]: res == self.hi()
== impl RangeArgument for RangeFull
extra: open spec fn lo(&self) -> Bound<'_, T> { Bound::Unbounded }
extra: open spec fn hi(&self) -> Bound<'_, T> { Bound::Unbounded }
== impl RangeArgument for Range
extra: open spec fn lo(&self) -> Bound<'_, T> { Bound::Included(&self.start) }
extra: open spec fn hi(&self) -> Bound<'_, T> { Bound::Excluded(&self.end) }
== impl RangeArgument for RangeInclusive
extra: open spec fn lo(&self) -> Bound<'_, T> { Bound::Included(&self@.start) }
extra: open spec fn hi(&self) -> Bound<'_, T> { Bound::Included(&self@.end) }
== impl RangeArgument for RangeFrom
extra: open spec fn lo(&self) -> Bound<'_, T> { Bound::Included(&self.start) }
extra: open spec fn hi(&self) -> Bound<'_, T> { Bound::Unbounded }
== impl RangeArgument for RangeTo
extra: open spec fn lo(&self) -> Bound<'_, T> { Bound::Unbounded }
extra: open spec fn hi(&self) -> Bound<'_, T> { Bound::Excluded(&self.end) }
== impl RangeArgument for RangeToInclusive
extra: open spec fn lo(&self) -> Bound<'_, T> { Bound::Unbounded }
extra: open spec fn hi(&self) -> Bound<'_, T> { Bound::Included(&self.end) }
== impl RangeArgument for usize
extra: open spec fn lo(&self) -> Bound<'_, usize> { Bound::Included(self) }
extra: open spec fn hi(&self) -> Bound<'_, usize> { Bound::Included(self) }

== ParsersImpl::elm_pred_ref , elm_pred_ref
props: C05
req[total]: totalr(@0)
rel[pred]: pred_post(@0, $s, $r)
== ParsersImpl::elm_pred , elm_pred
props: C05
req[total]: totalr(@0)
rel[pred]: pred_post_v(@0, $s, $r)
== ParsersImpl::elm_any_ref , elm_any_ref
props: C05
rel[any]: one($s, $r, true)
== ParsersImpl::elm_any , elm_any
props: C05
rel[any]: one_v($s, $r, true)
== ParsersImpl::elm_ref , elm_ref
props: C05
rel[element]: I::obeys_eq_spec() ==> one($s, $r, rem($s) > 0 && eqv(rest($s)[0], @0))
clo[elm_pred_ref#0] ret: bool
clo[elm_pred_ref#0] ens: I::obeys_eq_spec() ==> $r == eqv(*$c0, @0)
== ParsersImpl::elm , elm
props: C05
rel[element]: I::obeys_eq_spec() ==> one_v($s, $r, rem($s) > 0 && eqv(rest($s)[0], @0))
== ParsersImpl::elm_space_ref , elm_space_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_space(rest($s)[0].code()))
== ParsersImpl::elm_space , elm_space
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_space(rest($s)[0].code()))
== ParsersImpl::elm_multi_space_ref , elm_multi_space_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_multi_space(rest($s)[0].code()))
== ParsersImpl::elm_multi_space , elm_multi_space
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_multi_space(rest($s)[0].code()))
== ParsersImpl::elm_alpha_ref , elm_alpha_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_alpha(rest($s)[0].code()))
== ParsersImpl::elm_alpha , elm_alpha
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_alpha(rest($s)[0].code()))
== ParsersImpl::elm_alpha_digit_ref , elm_alpha_digit_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_alnum(rest($s)[0].code()))
== ParsersImpl::elm_alpha_digit , elm_alpha_digit
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_alnum(rest($s)[0].code()))
== ParsersImpl::elm_digit_ref , elm_digit_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_digit(rest($s)[0].code()))
== ParsersImpl::elm_digit , elm_digit
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_digit(rest($s)[0].code()))
== elm_digit_1_9_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_digit(rest($s)[0].code()) && rest($s)[0].code() != '0' as u32)
clo[with_filter_not#0] ret: bool
clo[with_filter_not#0] ens: $r == ((**$c0).code() == '0' as u32)
== elm_digit_1_9
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_digit(rest($s)[0].code()) && rest($s)[0].code() != '0' as u32)
== ParsersImpl::elm_hex_digit_ref , elm_hex_digit_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_hex(rest($s)[0].code()))
== ParsersImpl::elm_hex_digit , elm_hex_digit
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_hex(rest($s)[0].code()))
== ParsersImpl::elm_oct_digit_ref , elm_oct_digit_ref
props: C05
rel[class]: one($s, $r, rem($s) > 0 && c_oct(rest($s)[0].code()))
== ParsersImpl::elm_oct_digit , elm_oct_digit
props: C05
rel[class]: one_v($s, $r, rem($s) > 0 && c_oct(rest($s)[0].code()))
== ParsersImpl::elm_ref_of , elm_ref_of
props: C05
rel[member]: @0.lawful() ==> one($s, $r, rem($s) > 0 && @0.has(rest($s)[0]))
== ParsersImpl::elm_of , elm_of
props: C05
rel[member]: @0.lawful() ==> one_v($s, $r, rem($s) > 0 && @0.has(rest($s)[0]))
== ParsersImpl::none_ref_of , none_ref_of
props: C05
rel[non-member]: @0.lawful() ==> one($s, $r, rem($s) > 0 && !@0.has(rest($s)[0]))
== ParsersImpl::none_of , none_of
props: C05
rel[non-member]: @0.lawful() ==> one_v($s, $r, rem($s) > 0 && !@0.has(rest($s)[0]))
== ParsersImpl::elm_ref_in , elm_in_ref
props: C05
rel[range]: ordered::<I>() ==> one($s, $r, rem($s) > 0 && lev(@0, rest($s)[0]) && lev(rest($s)[0], @1))
== ParsersImpl::elm_in , elm_in
props: C05
rel[range]: ordered::<I>() ==> one_v($s, $r, rem($s) > 0 && lev(@0, rest($s)[0]) && lev(rest($s)[0], @1))
== ParsersImpl::elm_ref_from_until , elm_from_until_ref
props: C05
rel[range]: ordered::<I>() ==> one($s, $r, rem($s) > 0 && lev(@0, rest($s)[0]) && ltv(rest($s)[0], @1))
== ParsersImpl::elm_from_until , elm_from_until
props: C05
rel[range]: ordered::<I>() ==> one_v($s, $r, rem($s) > 0 && lev(@0, rest($s)[0]) && ltv(rest($s)[0], @1))

# ---- literals
== ParsersImpl::seq , seq
props: C06
rel[literal]: I::obeys_eq_spec() ==> seq_post(@0@, $s, $r)
rel[value]: $r is Success ==> $r->value@ =~= @0@
loop[0] inv[prefix]: 0 <= %int0 <= @0@.len() && (I::obeys_eq_spec() ==> forall|j: int| 0 <= j < %int0 ==> eqv(#[trigger] @0@[j], rest($s)[j])) && %int0 <= rem($s)
== ParsersImpl::tag , tag
props: C06
rel[literal]: tag_post(@0@, $s, $r)
rel[value]: $r is Success ==> $r->value@ == @0@
loop[0] inv[prefix]: %int0 == vx_it0.index@ && vx_it0.seq() == @0@ && %int0 <= rem($s) && forall|j: int| 0 <= j < %int0 ==> #[trigger] @0@[j] == rest($s)[j]
== ParsersImpl::tag_no_case , tag_no_case
props: C06
rel[literal]: tag_no_case_post(@0@, $s, $r)
rel[value]: $r is Success ==> $r->value@ == @0@
loop[0] inv[prefix]: %int0 == vx_it0.index@ && vx_it0.seq() == @0@ && %int0 <= rem($s) && forall|j: int| 0 <= j < %int0 ==> ascii_lower(#[trigger] @0@[j]) == ascii_lower(rest($s)[j])

# ---- runs
== ParsersImpl::take , take
props: C07
rel[take]: if rem($s) >= @0 { $r is Success && $r->length == @0 && $r->value@ == rest($s).take(@0 as int) } else { unc($r) }
== ParsersImpl::take_while0 , take_while0
props: C07
req[total]: totalr(@0)
rel[run]: while_post(@0, 0, None, true, $s, $r)
loop[0] inv[scan]: scan_inv(@0, rest($s), %int1 as int, %opt, %int0 as int) && %input@ == rest($s)
loop[0] ens[end]: run_end(@0, rest($s), %opt, %int0 as int) && (%opt is Some ==> run_at(@0, rest($s), %opt->0 as int, %int0 as int)) && (%opt is None ==> all_are(@0, rest($s), 0, rem($s), false))
loop[0] post: proof { assert(%opt is Some ==> run_at(@0, rest($s), %opt->0 as int, %int0 as int)); }
== ParsersImpl::take_while1 , take_while1
props: C07
req[total]: totalr(@0)
rel[run]: while_post(@0, 1, None, false, $s, $r)
loop[0] inv[scan]: scan_inv(@0, rest($s), %int1 as int, %opt, %int0 as int) && %input@ == rest($s)
loop[0] ens[end]: run_end(@0, rest($s), %opt, %int0 as int) && (%opt is Some ==> run_at(@0, rest($s), %opt->0 as int, %int0 as int)) && (%opt is None ==> all_are(@0, rest($s), 0, rem($s), false))
loop[0] post: proof { assert(%opt is Some ==> run_at(@0, rest($s), %opt->0 as int, %int0 as int)); }
== ParsersImpl::take_while_n_m , take_while_n_m
props: C07
req[total]: totalr(@2)
rel[run]: while_post(@2, @0 as int, Some(@1 as int), @0 == 0, $s, $r)
loop[0] inv[scan]: scan_inv(@2, rest($s), %int1 as int, %opt, %int0 as int) && %input@ == rest($s)
loop[0] ens[end]: run_end(@2, rest($s), %opt, %int0 as int) && (%opt is Some ==> run_at(@2, rest($s), %opt->0 as int, %int0 as int)) && (%opt is None ==> all_are(@2, rest($s), 0, rem($s), false))
loop[0] post: proof { assert(%opt is Some ==> run_at(@2, rest($s), %opt->0 as int, %int0 as int)); }
== ParsersImpl::take_till0 , take_till0
props: C07
req[total]: totalr(@0)
rel[till]: till_post(@0, true, $s, $r)
loop[0] inv[scan]: %int0 <= rem($s) && %input@ == rest($s) && all_are(@0, rest($s), 0, %int0 as int, false)
loop[0] inve[no-terminator]: !%bool
loop[0] ens[end]: if %bool { %int0 < rem($s) && @0.ensures((&rest($s)[%int0 as int],), true) } else { %int0 == rem($s) }
== ParsersImpl::take_till1 , take_till1
props: C07
req[total]: totalr(@0)
rel[till]: till_post(@0, false, $s, $r)
loop[0] inv[scan]: %int0 <= rem($s) && %input@ == rest($s) && all_are(@0, rest($s), 0, %int0 as int, false)
loop[0] inve[no-terminator]: !%bool
loop[0] ens[end]: if %bool { %int0 < rem($s) && @0.ensures((&rest($s)[%int0 as int],), true) } else { %int0 == rem($s) }
