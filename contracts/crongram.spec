# the cron grammar, in terms of the parsers' contracts (proved in the unit `parser`)
== min_digit
props: C14
rel[minutes]: gives(min_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (char, char)
clo[map#0] req: dig($c0.0) && $c0.0 <= '5' && dig($c0.1)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == num2($c0.0, $c0.1)
clo[map#1] ty0: char
clo[map#1] req: dig($c0)
clo[map#1] ret: CronExpr
clo[map#1] ens: $r == num1($c0)
clo[map#2] ty0: char
clo[map#2] req: dig($c0)
clo[map#2] ret: CronExpr
clo[map#2] ens: $r == num1($c0)
== hour_digit
props: C14
rel[hours]: gives(hour_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (char, char)
clo[map#0] req: dig($c0.0) && $c0.0 <= '2' && dig($c0.1)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == num2($c0.0, $c0.1)
clo[map#1] ty0: (char, char)
clo[map#1] req: dig($c0.0) && $c0.0 <= '1' && dig($c0.1)
clo[map#1] ret: CronExpr
clo[map#1] ens: $r == num2($c0.0, $c0.1)
clo[map#2] ty0: char
clo[map#2] req: dig($c0)
clo[map#2] ret: CronExpr
clo[map#2] ens: $r == num1($c0)
clo[map#3] ty0: char
clo[map#3] req: dig($c0)
clo[map#3] ret: CronExpr
clo[map#3] ens: $r == num1($c0)
== day_digit
props: C14
rel[days]: gives(day_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_01(); vx_gram::lemma_12(); }
clo[map#0] ty0: (char, char)
clo[map#0] req: dig($c0.0) && $c0.0 <= '3' && dig($c0.1)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == num2($c0.0, $c0.1)
clo[map#1] ty0: (char, char)
clo[map#1] req: dig($c0.0) && $c0.0 <= '2' && dig($c0.1)
clo[map#1] ret: CronExpr
clo[map#1] ens: $r == num2($c0.0, $c0.1)
clo[map#2] ty0: char
clo[map#2] req: dig($c0)
clo[map#2] ret: CronExpr
clo[map#2] ens: $r == num1($c0)
clo[map#3] ty0: char
clo[map#3] req: dig($c0)
clo[map#3] ret: CronExpr
clo[map#3] ens: $r == num1($c0)
== month_digit
props: C14
rel[months]: gives(month_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_012(); }
clo[map#0] ty0: (char, char)
clo[map#0] req: dig($c0.0) && $c0.0 <= '1' && dig($c0.1)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == num2($c0.0, $c0.1)
clo[map#1] ty0: char
clo[map#1] req: dig($c0)
clo[map#1] ret: CronExpr
clo[map#1] ens: $r == num1($c0)
clo[map#2] ty0: char
clo[map#2] req: dig($c0)
clo[map#2] ret: CronExpr
clo[map#2] ens: $r == num1($c0)
== day_of_week_digit
props: C14
rel[day-names]: gives(day_name_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal_strlit("SUN"); assert("SUN"@[0] == 'S' && "SUN"@[1] == 'U' && "SUN"@[2] == 'N'); reveal_strlit("MON"); assert("MON"@[0] == 'M' && "MON"@[1] == 'O' && "MON"@[2] == 'N'); reveal_strlit("TUE"); assert("TUE"@[0] == 'T' && "TUE"@[1] == 'U' && "TUE"@[2] == 'E'); reveal_strlit("WED"); assert("WED"@[0] == 'W' && "WED"@[1] == 'E' && "WED"@[2] == 'D'); reveal_strlit("THU"); assert("THU"@[0] == 'T' && "THU"@[1] == 'H' && "THU"@[2] == 'U'); reveal_strlit("FRI"); assert("FRI"@[0] == 'F' && "FRI"@[1] == 'R' && "FRI"@[2] == 'I'); reveal_strlit("SAT"); assert("SAT"@[0] == 'S' && "SAT"@[1] == 'A' && "SAT"@[2] == 'T'); }
clo[map#0] ty0: String
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == CronExpr::ValueExpr(1)
clo[map#1] ty0: String
clo[map#1] ret: CronExpr
clo[map#1] ens: $r == CronExpr::ValueExpr(2)
clo[map#2] ty0: String
clo[map#2] ret: CronExpr
clo[map#2] ens: $r == CronExpr::ValueExpr(3)
clo[map#3] ty0: String
clo[map#3] ret: CronExpr
clo[map#3] ens: $r == CronExpr::ValueExpr(4)
clo[map#4] ty0: String
clo[map#4] ret: CronExpr
clo[map#4] ens: $r == CronExpr::ValueExpr(5)
clo[map#5] ty0: String
clo[map#5] ret: CronExpr
clo[map#5] ens: $r == CronExpr::ValueExpr(6)
clo[map#6] ty0: String
clo[map#6] ret: CronExpr
clo[map#6] ens: $r == CronExpr::ValueExpr(7)
clo[map#7] ty0: char
clo[map#7] ret: CronExpr
clo[map#7] ens: $r == CronExpr::LastValueExpr
== day_of_week_text
props: C14
rel[day-numbers]: gives(day_number_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: char
clo[map#0] req: dig($c0)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == num1($c0)
== asterisk
props: C14
rel[any]: gives(any_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: char
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == CronExpr::AnyValueExpr
== per
props: C14
ens[step]: forall|g: Gram| #[trigger] hint(g) && parses($0, g) ==> parses(res, per_f(g))
== asterisk_per
props: C14
ens[any-step]: forall|g: Gram| #[trigger] hint(g) && parses($0, g) ==> parses(res, any_per_f(g))
clo[map#0] ty0: (CronExpr, CronExpr)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (CronExpr::PerExpr { digit: box_of($c0.0), option: box_of($c0.1) })
== range_per
props: C14
ens[optional-step]: forall|g: Gram| #[trigger] hint(g) && parses($0, g) ==> parses(res, opt_per_f(g))
clo[map#0] ty0: Option<CronExpr>
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (match $c0 { None => CronExpr::NoOp, Some(x) => x })
== list
props: C14
ens[list]: forall|g: Gram| #[trigger] hint(g) && parses($0, g) ==> parses(res, list_f(g))
clo[map#0] ty0: Vec<CronExpr>
clo[map#0] req: $c0@.len() >= 1
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == list_of($c0@)
== vx_range_0
props: C14
rettype: Parser<'a, char, CronExpr>
rel[range]: gives(range_at(min_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { assert(hint(min_f())); }
clo[map#0] ty0: ((CronExpr, CronExpr), CronExpr)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (CronExpr::RangeExpr { from: box_of($c0.0.0), to: box_of($c0.0.1), per_option: box_of($c0.1) })
== vx_digit_instruction_0
props: C14
rettype: Parser<'a, char, CronExpr>
rel[field]: gives(field_at(min_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(field_at); assert(hint(min_f()) && hint(item_f(min_f()))); }
== vx_range_1
props: C14
rettype: Parser<'a, char, CronExpr>
rel[range]: gives(range_at(hour_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { assert(hint(hour_f())); }
clo[map#0] ty0: ((CronExpr, CronExpr), CronExpr)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (CronExpr::RangeExpr { from: box_of($c0.0.0), to: box_of($c0.0.1), per_option: box_of($c0.1) })
== vx_digit_instruction_1
props: C14
rettype: Parser<'a, char, CronExpr>
rel[field]: gives(field_at(hour_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(field_at); assert(hint(hour_f()) && hint(item_f(hour_f()))); }
== vx_range_2
props: C14
rettype: Parser<'a, char, CronExpr>
rel[range]: gives(range_at(day_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { assert(hint(day_f())); }
clo[map#0] ty0: ((CronExpr, CronExpr), CronExpr)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (CronExpr::RangeExpr { from: box_of($c0.0.0), to: box_of($c0.0.1), per_option: box_of($c0.1) })
== vx_digit_instruction_2
props: C14
rettype: Parser<'a, char, CronExpr>
rel[field]: gives(field_at(day_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(field_at); assert(hint(day_f()) && hint(item_f(day_f()))); }
== vx_range_3
props: C14
rettype: Parser<'a, char, CronExpr>
rel[range]: gives(range_at(month_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { assert(hint(month_f())); }
clo[map#0] ty0: ((CronExpr, CronExpr), CronExpr)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (CronExpr::RangeExpr { from: box_of($c0.0.0), to: box_of($c0.0.1), per_option: box_of($c0.1) })
== vx_digit_instruction_3
props: C14
rettype: Parser<'a, char, CronExpr>
rel[field]: gives(field_at(month_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(field_at); assert(hint(month_f()) && hint(item_f(month_f()))); }
== vx_range_4
props: C14
rettype: Parser<'a, char, CronExpr>
rel[range]: gives(range_at(dow_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { assert(hint(dow_f())); }
clo[map#0] ty0: ((CronExpr, CronExpr), CronExpr)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (CronExpr::RangeExpr { from: box_of($c0.0.0), to: box_of($c0.0.1), per_option: box_of($c0.1) })
== vx_digit_instruction_4
props: C14
rettype: Parser<'a, char, CronExpr>
rel[field]: gives(field_at(dow_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(field_at); assert(hint(dow_f()) && hint(item_f(dow_f()))); }
== instruction
props: C14
rel[cron]: gives(cron_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: ((((CronExpr, CronExpr), CronExpr), CronExpr), CronExpr)
clo[map#0] ret: CronExpr
clo[map#0] ens: $r == (CronExpr::CronExpr { mins: box_of($c0.0.0.0.0), hours: box_of($c0.0.0.0.1), days: box_of($c0.0.0.1), months: box_of($c0.0.1), day_of_weeks: box_of($c0.1) })
== CronParser::parse
props: C14
ens[whole-text]: match cron_at($0@, 0) { Some(t) => if t.1 == $0@.len() { res == Ok::<CronExpr, String>(t.0) } else { res is Err }, None => res is Err }
clo[map_err#0] ret: String
clo[map_err#0] ens: true
