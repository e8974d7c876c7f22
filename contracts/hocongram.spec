# the HOCON grammar, in terms of the parsers' contracts (proved in the unit `parser`) and the model's (unit `hocon`)
== space
props: C20
pre: proof { assert(hint1(blank_f())); }
rel[blanks]: stops(Some(ws($s.input@, $s.offset as int)), $s, $r)
== comment
props: C20
pre: proof { broadcast use {vx_hocongram::lemma_till, vx_hocongram::lemma_eol}; assert(hint1(remark_f())); reveal(comment_at); assert("//"@.len() == 2) by { reveal_strlit("//"); } }
after[head]: let head = vx_only(head, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a [u8]>| ends(if kw(s.input@, s.offset as int, "//"@) { Some(s.offset + 2) } else if is_at(s.input@, s.offset as int, 35) { Some(s.offset + 1) } else { None }, s, r)));
after[tail]: let tail = vx_only(tail, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a [u8]>| stops(Some(eol(s.input@, s.offset as int)), s, r)));
clo[take_till0#0] ty0: &u8
clo[take_till0#0] ret: bool
clo[take_till0#0] ens: $r == (*$c0 == 13 || *$c0 == 10)
rel[comment]: ends(comment_at($s.input@, $s.offset as int), $s, $r)
== space_or_comment
props: C20
pre: proof { assert(hint1(comment_f())); reveal(sc); }
rel[layout]: stops(Some(sc($s.input@, $s.offset as int)), $s, $r)
== array_left_bracket
props: C20
rel[token]: ends(tok($s.input@, $s.offset as int, 91), $s, $r)
== array_right_bracket
props: C20
rel[token]: ends(tok($s.input@, $s.offset as int, 93), $s, $r)
== object_left_bracket
props: C20
rel[token]: ends(tok($s.input@, $s.offset as int, 123), $s, $r)
== object_right_bracket
props: C20
rel[token]: ends(tok($s.input@, $s.offset as int, 125), $s, $r)
== comma
props: C20
rel[token]: ends(tok($s.input@, $s.offset as int, 44), $s, $r)
== reference_left_bracket
props: C22
pre: proof { assert("${"@.len() > 0) by { reveal_strlit("${"); } }
rel[token]: stops(word_tok($s.input@, $s.offset as int, "${"@), $s, $r) && ($r is Success ==> $r->length > 0)
== reference_right_bracket
props: C22
pre: proof { assert("}"@.len() > 0) by { reveal_strlit("}"); } }
rel[token]: stops(word_tok($s.input@, $s.offset as int, "}"@), $s, $r) && ($r is Success ==> $r->length > 0)
== kv
props: C20
rel[separator]: ends(if is_at($s.input@, $s.offset as int, 61) || is_at($s.input@, $s.offset as int, 58) { Some($s.offset + 1) } else { None }, $s, $r)
== path_element
props: C20
pre: proof { assert(hint1(path_c_f())); }
rel[word]: ends(element_end($s.input@, $s.offset as int), $s, $r)
== path
props: C20
pre: proof { broadcast use {vx_hocongram::lemma_path, vx_hocongram::lemma_words}; assert(hint2(element_f(), dot_f())); reveal(path_at); }
rel[path]: gives(path_at($s.input@, $s.offset as int), $s, $r)
clo[map_res#0] ty0: &'a [u8]
clo[map_res#0] ret: VxStrRes<'a>
clo[map_res#0] ens: str_read($c0@, $r)
clo[map#0] ty0: &str
clo[map#0] ret: String
clo[map#0] ens: $r == str_of($c0@)
== reference
props: C22
pre: proof { broadcast use {vx_hocongram::lemma_path, vx_hocongram::lemma_words}; assert(hint2(element_f(), dot_f())); reveal(path_at); reveal(reference_at); }
clo[map#0] ty0: Option<&u8>
clo[map#0] ret: bool
clo[map#0] ens: $r == ($c0 is Some)
rel[reference]: reads_as(reference_at($s.input@, $s.offset as int), $s, $r)
clo[map_res#0] ty0: &'a [u8]
clo[map_res#0] ret: VxStrRes<'a>
clo[map_res#0] ens: str_read($c0@, $r)
clo[map#1] ty0: &str
clo[map#1] ret: String
clo[map#1] ens: $r == str_of($c0@)
== include_method
props: C20
pre: proof { vx_hocongram::lemma_methods(); }
rel[method]: reads_as(method_at($s.input@, $s.offset as int), $s, $r)
clo[map_res#0] ty0: &'a [u8]
clo[map_res#0] ret: VxStrRes<'a>
clo[map_res#0] ens: str_read($c0@, $r)
clo[map#0] ty0: &str
clo[map#0] ret: String
clo[map#0] ens: $r == str_of($c0@)
== vx_number_integer
props: C18
rettype: Parser<'a, u8, &'a [u8]>
pre: proof { broadcast use {vx_hocongram::lemma_int, vx_hocongram::lemma_frac, vx_hocongram::lemma_exp}; assert(hint1(digit_f())); reveal(int_end); }
rel[integer]: ends(int_end($s.input@, $s.offset as int), $s, $r) && ($r is Success ==> $r->value@ == $s.input@.subrange($s.offset as int, $s.offset + $r->length))
== vx_number_frac
props: C18
rettype: Parser<'a, u8, (&'a u8, Vec<&'a u8>)>
pre: proof { broadcast use {vx_hocongram::lemma_int, vx_hocongram::lemma_frac, vx_hocongram::lemma_exp}; assert(hint1(digit_f())); reveal(frac_end); }
rel[fraction]: stops(frac_end($s.input@, $s.offset as int), $s, $r)
== vx_number_exp
props: C18
rettype: Parser<'a, u8, ((u8, Option<u8>), Vec<&'a u8>)>
pre: proof { broadcast use {vx_hocongram::lemma_int, vx_hocongram::lemma_frac, vx_hocongram::lemma_exp}; assert(hint1(digit_f())); reveal(exp_end); }
rel[exponent]: stops(exp_end($s.input@, $s.offset as int), $s, $r)
== number
props: C18
attr: #[verifier::rlimit(30)]
pre: proof { broadcast use {vx_hocongram::lemma_int, vx_hocongram::lemma_frac, vx_hocongram::lemma_exp}; }
out[opt#0]: |s: ParseState<'a, u8>, r: ParseResult<'a, u8, Option<&'a u8>>| r is Success && r->length == minus_end(s.input@, s.offset as int) - s.offset && s.offset <= minus_end(s.input@, s.offset as int) && (r->value is Some == is_at(s.input@, s.offset as int, 45))
out[opt#1]: |s: ParseState<'a, u8>, r: ParseResult<'a, u8, Option<String>>| opt_written(s.input@, s.offset as int, frac_end(s.input@, s.offset as int), s, r)
out[opt#2]: |s: ParseState<'a, u8>, r: ParseResult<'a, u8, Option<String>>| opt_written(s.input@, s.offset as int, exp_end(s.input@, s.offset as int), s, r)
after[number]: assert forall|s: ParseState<'a, u8>, r: ParseResult<'a, u8, (((Option<&'a u8>, String), Option<String>), Option<String>)>| #[trigger] number.post(s, r) implies digits_give(s, r) by { reveal(num_parts); }
  let number = vx_only(number, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, (((Option<&'a u8>, String), Option<String>), Option<String>)>| digits_give(s, r)));
rel[parts]: number_gives($s, $r)
clo[map_res#0] ty0: &'a [u8]
clo[map_res#0] ret: VxStrRes<'a>
clo[map_res#0] ens: str_read($c0@, $r)
clo[map#0] out: |s: ParseState<'a, u8>, r: ParseResult<'a, u8, String>| written(int_end(s.input@, s.offset as int), s, r) && (r is Failure ==> unc(r))
clo[map#0] ty0: &str
clo[map#0] ret: String
clo[map#0] ens: $r == str_of($c0@)
clo[map_res#1] ty0: &'a [u8]
clo[map_res#1] ret: VxStrRes<'a>
clo[map_res#1] ens: str_read($c0@, $r)
clo[map#1] out: |s: ParseState<'a, u8>, r: ParseResult<'a, u8, String>| written(frac_end(s.input@, s.offset as int), s, r)
clo[map#1] ty0: &str
clo[map#1] ret: String
clo[map#1] ens: $r == str_of($c0@)
clo[map_res#2] ty0: &'a [u8]
clo[map_res#2] ret: VxStrRes<'a>
clo[map_res#2] ens: str_read($c0@, $r)
clo[map#2] out: |s: ParseState<'a, u8>, r: ParseResult<'a, u8, String>| written(exp_end(s.input@, s.offset as int), s, r)
clo[map#2] ty0: &str
clo[map#2] ret: String
clo[map#2] ens: $r == str_of($c0@)
clo[map#3] ty0: (((Option<&'a u8>, String), Option<String>), Option<String>)
clo[map#3] ret: VxNumParts<'a>
clo[map#3] ens: $r == ($c0.0.0.0, $c0.0.0.1, $c0.0.1, $c0.1)
== number_value
props: C18
pre: proof { broadcast use vx_hocongram::lemma_parts; }
rel[number]: gives(number_at($s.input@, $s.offset as int), $s, $r)
clo[map_res#0] ty0: VxNumParts<'_>
clo[map_res#0] ret: VxNumRes
clo[map_res#0] pre: proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
clo[map_res#0] ens: match number_of($c0) { Some(d) => $r == Ok::<ConfigNumberValue, VxParseError>(ConfigNumberValue(d)), None => $r is Err }
clo[vx_map_or#0] ty0: &u8
clo[vx_map_or#0] ret: &'static str
clo[vx_map_or#0] ens: $r@ == "-"@
clo[map#0] ty0: Decimal
clo[map#0] ret: ConfigNumberValue
clo[map#0] ens: $r == ConfigNumberValue($c0)
== duration_value
props: C18
rel[duration]: reads_as(duration_v($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (ConfigNumberValue, TimeUnit)
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::Duration(ConfigDurationValue { value: $c0.0, unit: $c0.1 })
== string
props: C20
pre: proof { assert(class_hint(plain_c())); }
rel[text]: reads_as(text_at(plain_c(), $s.input@, $s.offset as int), $s, $r)
== string_config_value
props: C20
rel[text]: reads_as(text_v($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: String
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::String($c0)
== vx_duration_ns
props: C18
rettype: Parser<'a, u8, TimeUnit>
pre: proof { vx_hocongram::lemma_units(); reveal(unit_of); }
rel[unit]: reads_as(unit_of($s.input@, $s.offset as int, TimeUnit::Nanoseconds), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: TimeUnit
clo[map#0] ens: $r == TimeUnit::Nanoseconds
== vx_duration_us
props: C18
rettype: Parser<'a, u8, TimeUnit>
pre: proof { vx_hocongram::lemma_units(); reveal(unit_of); }
rel[unit]: reads_as(unit_of($s.input@, $s.offset as int, TimeUnit::Microseconds), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: TimeUnit
clo[map#0] ens: $r == TimeUnit::Microseconds
== vx_duration_ms
props: C18
rettype: Parser<'a, u8, TimeUnit>
pre: proof { vx_hocongram::lemma_units(); reveal(unit_of); }
rel[unit]: reads_as(unit_of($s.input@, $s.offset as int, TimeUnit::Milliseconds), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: TimeUnit
clo[map#0] ens: $r == TimeUnit::Milliseconds
== vx_duration_s
props: C18
rettype: Parser<'a, u8, TimeUnit>
pre: proof { vx_hocongram::lemma_units(); reveal(unit_of); }
rel[unit]: reads_as(unit_of($s.input@, $s.offset as int, TimeUnit::Seconds), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: TimeUnit
clo[map#0] ens: $r == TimeUnit::Seconds
== vx_duration_m
props: C18
rettype: Parser<'a, u8, TimeUnit>
pre: proof { vx_hocongram::lemma_units(); reveal(unit_of); }
rel[unit]: reads_as(unit_of($s.input@, $s.offset as int, TimeUnit::Minutes), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: TimeUnit
clo[map#0] ens: $r == TimeUnit::Minutes
== vx_duration_h
props: C18
rettype: Parser<'a, u8, TimeUnit>
pre: proof { vx_hocongram::lemma_units(); reveal(unit_of); }
rel[unit]: reads_as(unit_of($s.input@, $s.offset as int, TimeUnit::Hours), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: TimeUnit
clo[map#0] ens: $r == TimeUnit::Hours
== vx_duration_d
props: C18
rettype: Parser<'a, u8, TimeUnit>
pre: proof { vx_hocongram::lemma_units(); reveal(unit_of); }
rel[unit]: reads_as(unit_of($s.input@, $s.offset as int, TimeUnit::Days), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: TimeUnit
clo[map#0] ens: $r == TimeUnit::Days
== vx_duration_blanks
props: C18
rettype: Parser<'a, u8, Vec<&'a u8>>
pre: proof { assert(hint1(gap_f())); }
rel[gap]: stops(Some(run(gap_f(), $s.input@, $s.offset as int)), $s, $r)
== duration
props: C18
pre: proof { reveal(duration_at); }
rel[duration]: reads_as(duration_at($s.input@, $s.offset as int), $s, $r)
== quoted_or_unquoted
props: C20
attr: #[verifier::rlimit(30)]
pre: proof { broadcast use vx_hocongram::lemma_hex; assert(hint(hex_f())); assert(hint(code_f())); assert(class_hint(quoted_c(34))); assert(class_hint(quoted_c(39))); reveal(text_at); }
rel[text]: forall|f: Class| #[trigger] class_hint(f) ==> (is_class($0, f) ==> reads_as(text_at(f, $s.input@, $s.offset as int), $s, $r))
clo[map#0] ty0: &'a u8
clo[map#0] ret: &'a u8
clo[map#0] ens: *$r == 8
clo[map#1] ty0: &'a u8
clo[map#1] ret: &'a u8
clo[map#1] ens: *$r == 12
clo[map#2] ty0: &'a u8
clo[map#2] ret: &'a u8
clo[map#2] ens: *$r == 10
clo[map#3] ty0: &'a u8
clo[map#3] ret: &'a u8
clo[map#3] ens: *$r == 13
clo[map#4] ty0: &'a u8
clo[map#4] ret: &'a u8
clo[map#4] ens: *$r == 9
after[escape_sequence]: let escape_sequence = vx_only(escape_sequence, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, &'a u8>| escape_gives(s, r)));
clo[#0] ret: Parser<'a, u8, String>
clo[#0] ens: forall|f: Class| #[trigger] class_hint(f) ==> (is_class($c0, f) ==> reads($r, chars_f(f)))
clo[map#5] ty0: &'a u8
clo[map#5] ret: u8
clo[map#5] ens: $r == *$c0
clo[map_res#0] ty0: Vec<u8>
clo[map_res#0] ret: VxStringRes
clo[map_res#0] ens: string_read($c0@, $r)
clo[map_res#1] ty0: Vec<u8>
clo[map_res#1] ret: VxStringRes
clo[map_res#1] ens: string_read($c0@, $r)
clo[map_res#2] ty0: String
clo[map_res#2] ret: std::result::Result<u16, VxParseError>
clo[map_res#2] pre: proof { broadcast use vx_hocongram::axiom_view; }
clo[map_res#2] ens: forall|b: Seq<u8>| $c0 == str_of(#[trigger] asc(b)) && hex_text(b) && hex(b) <= 65535 ==> $r == Ok::<u16, VxParseError>(hex(b) as u16)
clo[map#6] ty0: Vec<u16>
clo[map#6] ret: String
clo[map#6] pre: proof { broadcast use vx_hocongram::lemma_utf16; }
clo[map#6] ens: $r == str_of(utf16_text($c0@))
clo[map#7] ty0: std::result::Result<char, VxUtf16Error>
clo[map#7] ret: char
clo[map#7] ens: $r == match $c0 { Ok(c) => c, Err(_) => '\u{FFFD}' }
after[utf16_char]: let utf16_char = vx_only(utf16_char, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, u16>| reads_as(code_at(s.input@, s.offset as int), s, r)));
after[utf16_string]: let utf16_string = vx_only(utf16_string, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, String>| reads_as(codes_at(s.input@, s.offset as int), s, r)));
clo[#1] ret: Parser<'a, u8, Vec<String>>
clo[#1] pre: proof { assert(class_hint(quoted_c($c1))); }
clo[#1] ens: reads($c0, chars_f(quoted_c($c1))) ==> reads($r, quoted_f($c1))
after[string_surround]: let string_surround = vx_only(string_surround, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, Vec<String>>| forall|f: Class| #[trigger] class_hint(f) ==> (is_class(unquoted_char, f) ==> reads_as(bare_at(f, s.input@, s.offset as int), s, r))));
after[string_surround1]: let string_surround1 = vx_only(string_surround1, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, Vec<String>>| reads_as(quoted_at(34, s.input@, s.offset as int), s, r)));
after[string_surround2]: let string_surround2 = vx_only(string_surround2, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, Vec<String>>| reads_as(quoted_at(39, s.input@, s.offset as int), s, r)));
clo[map#8] ty0: Vec<String>
clo[map#8] ret: String
clo[map#8] ens: $r == str_of(concat_of($c0@))
== key
props: C19 C20
pre: proof { assert(class_hint(key_c())); reveal(key_at); }
after[string]: let string = vx_only(string, Ghost(|s: ParseState<'a, u8>, r: ParseResult<'a, u8, String>| reads_as(text_at(key_c(), s.input@, s.offset as int), s, r)));
rel[key]: reads_as(key_at($s.input@, $s.offset as int), $s, $r)
== array
props: C20
pre: proof { assert(hint2(value_f(), comma_f())); reveal(array_at); }
rel[array]: reads_as(array_at($s.input@, $s.offset as int), $s, $r)
== property
props: C19 C20
pre: proof { broadcast use vx_hocongram::axiom_property; reveal(property_is); }
rel[property]: reads_as(property_at($s.input@, $s.offset as int), $s, $r)
== property_config_value
props: C19 C20
rel[property]: reads_as(property_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (String, ConfigValue)
clo[map#0] ret: (String, ConfigValue)
clo[map#0] ens: $r == $c0
== object
props: C19 C20
pre: proof { assert(hint2(property_f(), opt_comma_f())); reveal(object_at); }
rel[object]: reads_as(object_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: Vec<(String, ConfigValue)>
clo[map#0] ret: HashMap<String, ConfigValue>
clo[map#0] pre: proof { broadcast use {vx_hocongram::lemma_fold_object, vx_hocongram::axiom_map}; }
clo[map#0] ens: $r == map_of(entries($c0@))
clo[fold#0] ty0: HashMap<String, ConfigValue>
clo[fold#0] ty1: (String, ConfigValue)
clo[fold#0] ret: HashMap<String, ConfigValue>
clo[fold#0] pre: proof { broadcast use vx_hocongram::lemma_push; }
clo[fold#0] ens: $r.m() == entry_put($c0.m(), $c1.0@, $c1.1)
== object_config_value
props: C20
rel[object]: reads_as(object_v($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: HashMap<String, ConfigValue>
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::Object(ConfigObjectValue($c0))
== array_config_value
props: C20
rel[array]: reads_as(array_v($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: Vec<ConfigValue>
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::Array(ConfigArrayValue($c0))
== reference_config_value
props: C22
rel[reference]: reads_as(reference_v($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (bool, String)
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::Reference { prev: None, path: $c0.1, missing: $c0.0 }
== enumeration_config_value
props: C22
pre: proof { assert(hint(part_f())); reveal(parts_at); }
rel[parts]: reads_as(parts_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: Vec<ConfigValue>
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::Enumeration { prev: None, values: ConfigArrayValue($c0) }
== simple_config_value
props: C18 C20
pre: proof { vx_hocongram::lemma_consts(); reveal(simple_at); }
rel[simple]: reads_as(simple_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: Vec<u8>
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::Null
clo[map#1] ty0: Vec<u8>
clo[map#1] ret: ConfigValue
clo[map#1] ens: $r == ConfigValue::Bool(true)
clo[map#2] ty0: Vec<u8>
clo[map#2] ret: ConfigValue
clo[map#2] ens: $r == ConfigValue::Bool(false)
clo[map#3] ty0: ConfigNumberValue
clo[map#3] ret: ConfigValue
clo[map#3] ens: $r == ConfigValue::Number($c0)
== config_value
props: C18 C20 C22
pre: proof { broadcast use vx_hocongram::axiom_value; reveal(value_is); }
rel[value]: reads_as(value_at($s.input@, $s.offset as int), $s, $r)
== include_config_value
props: C20
pre: proof { vx_hocongram::lemma_include(); reveal(include_at); }
rel[include]: reads_as(include_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (String, String)
clo[map#0] ret: ConfigValue
clo[map#0] pre: proof { assert forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
clo[map#0] ens: $r == ConfigValue::Include(ConfigIncludeValue { method: $c0.0, file_name: str_of("\""@ + $c0.1@ + "\""@) })
== config
props: C19 C20
pre: proof { assert(hint(property_f())); assert(hint(include_f())); assert(hint(block_f())); }
rel[config]: $r is Success && $r->length == config_end($s.input@, $s.offset as int) - $s.offset && $s.offset <= config_end($s.input@, $s.offset as int) && config_is($s.input@, $s.offset as int, $r->value)
clo[map#0] ty0: Vec<(String, ConfigValue)>
clo[map#0] ret: Vec<ConfigValue>
clo[map#0] pre: proof { broadcast use vx_hocongram::lemma_fold_document; }
clo[map#0] ens: $r@.len() == 1 && $r@[0] is Object && document($c0@, $r@[0]->Object_0.0.m())
clo[fold#0] ty0: HashMap<String, ConfigValue>
clo[fold#0] ty1: (String, ConfigValue)
clo[fold#0] ret: HashMap<String, ConfigValue>
clo[fold#0] ens: entry_merged($c0.m(), $c1.0@, $c1.1, $r.m())
== hocon
props: C18 C19 C20 C22
rel[text]: match sc($s.input@, $s.offset as int) { j => if config_end($s.input@, j) == $s.input@.len() { $r is Success && $r->length == rem($s) && config_is($s.input@, j, $r->value) } else { $r is Failure } }
