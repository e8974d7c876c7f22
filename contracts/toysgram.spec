# the Toys grammar, in terms of the parsers' contracts (proved in the unit `parser`) and the constructors' (unit `toys`)
== regex
props: C21
rel[match]: match regex_end($0@, $s.input@, $s.offset as int) { Some(e) => $r is Success && $r->value@ == $s.input@.subrange($s.offset as int, e) && $r->length == e - $s.offset, None => unc($r) }
== space
props: C21
pre: proof { vx_toysgram::lemma_blank_set(); assert(hint(vx_toysgram::blank_f())); }
rel[blanks]: $r is Success && $r->length == sp($s.input@, $s.offset as int) - $s.offset
== ident
props: C21
rel[name]: gives(ident_at($s.input@, $s.offset as int), $s, $r)
== add
props: C21
rel[operator]: ends(tok($s.input@, $s.offset as int, '+'), $s, $r) && ($r is Success ==> *$r->value == '+')
== subtract
props: C21
rel[operator]: ends(tok($s.input@, $s.offset as int, '-'), $s, $r) && ($r is Success ==> *$r->value == '-')
== r#mod
props: C21
rel[operator]: ends(tok($s.input@, $s.offset as int, '%'), $s, $r) && ($r is Success ==> *$r->value == '%')
== mul
props: C21
rel[operator]: ends(tok($s.input@, $s.offset as int, '*'), $s, $r) && ($r is Success ==> *$r->value == '*')
== div
props: C21
rel[operator]: ends(tok($s.input@, $s.offset as int, '/'), $s, $r) && ($r is Success ==> *$r->value == '/')
== lbracket
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, '['), $s, $r)
== rbracket
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, ']'), $s, $r)
== lbrace
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, '{'), $s, $r)
== rbrace
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, '}'), $s, $r)
== lparen
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, '('), $s, $r)
== rparen
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, ')'), $s, $r)
== comma
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, ','), $s, $r)
== semi_colon
props: C21
pre: proof { vx_toysgram::lemma_marks(); }
rel[token]: ends(tok($s.input@, $s.offset as int, ';'), $s, $r)
== integer
props: C21
pre: proof { broadcast use vx_toysgram::lemma_number; }
rel[tree]: gives(integer_at($s.input@, $s.offset as int), $s, $r)
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<i64, VxParseError>
clo[map_res#0] ens: i64::from_text($c0@, $r)
clo[map#0] ty0: i64
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::IntegerLiteral($c0))
== identifier
props: C21
rel[tree]: gives(identifier_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: String
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::Symbol($c0))
== function_call
props: C21
rel[tree]: gives(call_at($s.input@, $s.offset as int), $s, $r)
pre: proof { assert(hint(expression_f())); }
clo[map#0] ty0: (String, Vec<Rc<Expr>>)
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::FunctionCall($c0.0, $c0.1))
== labelled_call
attr: #[verifier::rlimit(30)]
props: C21
after[param]: let param = vx_only(param, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, LabelledParameter>| reads_as(argument_at(s.input@, s.offset as int), s, r)));
rel[tree]: gives(labelled_at($s.input@, $s.offset as int), $s, $r)
pre: proof { assert(hint(argument_f())); }
clo[map#0] ty0: (String, Rc<Expr>)
clo[map#0] ret: LabelledParameter
clo[map#0] ens: $r == (LabelledParameter { name: $c0.0, parameter: $c0.1 })
clo[map#1] ty0: (String, Vec<LabelledParameter>)
clo[map#1] ret: Rc<Expr>
clo[map#1] ens: $r == rc(Expr::LabelledCall($c0.0, $c0.1))
== array_literal
props: C21
rel[tree]: reads_as(array_at($s.input@, $s.offset as int), $s, $r)
rel[first]: $r is Failure && !unc($r) ==> tok($s.input@, $s.offset as int, '[') is Some
pre: proof { assert(hint(expression_f())); }
clo[map#0] ty0: Vec<Rc<Expr>>
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::ArrayLiteral($c0))
== expression
props: C21
rel[tree]: reads_as(expression_at($s.input@, $s.offset as int), $s, $r)
pre: proof { broadcast use vx_toysgram::axiom_expression; }
== multitive
props: C21
rel[tree]: reads_as(mul_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(mul_at); assert(op_hint(primary_f(), mul_f())); }
clo[map#0] ty0: &char
clo[map#0] req: *$c0 == '*' || *$c0 == '/'
clo[map#0] ret: VxFn2<Rc<Expr>>
clo[map#0] ens: (*$c0 == '*' ==> op_is($r, Operator::Multiply)) && (*$c0 == '/' ==> op_is($r, Operator::Divide))
== moditive
props: C21
rel[tree]: reads_as(mod_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(mod_at); assert(op_hint(mul_level(), mod_f())); }
clo[map#0] ty0: &char
clo[map#0] req: *$c0 == '%'
clo[map#0] ret: VxFn2<Rc<Expr>>
clo[map#0] ens: (*$c0 == '%' ==> op_is($r, Operator::Mod))
== additive
props: C21
rel[tree]: reads_as(add_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(add_at); assert(op_hint(mod_level(), add_f())); }
clo[map#0] ty0: &char
clo[map#0] req: *$c0 == '+' || *$c0 == '-'
clo[map#0] ret: VxFn2<Rc<Expr>>
clo[map#0] ens: (*$c0 == '+' ==> op_is($r, Operator::Add)) && (*$c0 == '-' ==> op_is($r, Operator::Subtract))
== primary
props: C21
rel[tree]: reads_as(primary_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(primary_at); broadcast use vx_toysgram::lemma_starts; }
clo[map#0] ty0: Rc<Expr>
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::Parenthesized($c0))
== comparative
props: C21
rel[tree]: reads_as(cmp_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(cmp_at); vx_toysgram::lemma_ops(); assert(op_hint(add_level(), cmp_f())); }
clo[map#0] ty0: String
clo[map#0] req: op_word($c0@)
clo[map#0] ret: VxFn2<Rc<Expr>>
clo[map#0] pre: proof { vx_toysgram::lemma_ops(); }
clo[map#0] ens: op_is($r, op_of($c0@))
== bool_literal
props: C21
pre: proof { vx_toysgram::lemma_bools(); }
rel[tree]: gives(bool_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: String
clo[map#0] req: $c0@ == "true"@ || $c0@ == "false"@
clo[map#0] ret: Rc<Expr>
clo[map#0] pre: proof { vx_toysgram::lemma_bools(); }
clo[map#0] ens: ($c0@ == "true"@ ==> $r == rc(Expr::BoolLiteral(true))) && ($c0@ == "false"@ ==> $r == rc(Expr::BoolLiteral(false)))
== string_literal
props: C21
rel[tree]: gives(string_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_toysgram::lemma_quoted_set(); broadcast use vx_toysgram::lemma_hex; assert(hint(hex_f())); assert(hint(char_f())); assert(hint(unit_f())); assert(hint(piece_f())); }
after[char_string]: let char_string = vx_only(char_string, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| chars_gives(s, r)));
after[utf16_char]: let utf16_char = vx_only(utf16_char, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, u16>| reads_as(unit_at(s.input@, s.offset as int), s, r)));
after[utf16_string]: let utf16_string = vx_only(utf16_string, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| units_gives(s, r)));
clo[map#0] ty0: &char
clo[map#0] ret: &'a char
clo[map#0] ens: *$r == '\x08'
clo[map#1] ty0: &char
clo[map#1] ret: &'a char
clo[map#1] ens: *$r == '\x0C'
clo[map#2] ty0: &char
clo[map#2] ret: &'a char
clo[map#2] ens: *$r == '\n'
clo[map#3] ty0: &char
clo[map#3] ret: &'a char
clo[map#3] ens: *$r == '\r'
clo[map#4] ty0: &char
clo[map#4] ret: &'a char
clo[map#4] ens: *$r == '\t'
clo[map#5] ty0: &char
clo[map#5] ret: char
clo[map#5] ens: $r == *$c0
clo[map#6] ty0: Vec<char>
clo[map#6] ret: String
clo[map#6] ens: $r == str_of($c0@)
clo[elm_pred#0] ret: bool
clo[elm_pred#0] ens: $r == hexdig(*$c0)
clo[map#7] ty0: Vec<char>
clo[map#7] ret: String
clo[map#7] ens: $r@ == $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<u16, VxParseError>
clo[map_res#0] ens: hex_text($c0@) && hex($c0@) <= 65535 ==> $r == Ok::<u16, VxParseError>(hex($c0@) as u16)
clo[map#8] ty0: Vec<u16>
clo[map#8] ret: String
clo[map#8] pre: proof { broadcast use vx_toysgram::lemma_utf16; }
clo[map#8] ens: $r == str_of(utf16_text($c0@))
clo[map#9] ty0: Result<char, VxUtf16Error>
clo[map#9] ret: char
clo[map#9] ens: $r == match $c0 { Ok(c) => c, Err(_) => '\u{FFFD}' }
clo[map#10] ty0: Vec<String>
clo[map#10] ret: Rc<Expr>
clo[map#10] ens: $r == rc(Expr::StringLiteral(str_of(concat_of($c0@))))
== println
props: C21
pre: proof { reveal(println_at); }
pre: proof { vx_toysgram::lemma_words(); }
rel[tree]: gives(println_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: Rc<Expr>
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::Println($c0))
== r#while
props: C21
after[condition]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| #[trigger] condition.post(s, r) ==> head_gives("while"@, s, r)) by { reveal(head_at); } let condition = vx_only(condition, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| head_gives("while"@, s, r)));
after[p]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(s, r) ==> inner_gives(while_at(s.input@, s.offset as int), s, r)) by { reveal(while_at); } let p = vx_only(p, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| inner_gives(while_at(s.input@, s.offset as int), s, r)));
pre: proof { broadcast use vx_toysgram::lemma_while_sp; }
pre: proof { vx_toysgram::lemma_words(); }
rel[tree]: gives(while_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (Rc<Expr>, Rc<Expr>)
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::While($c0.0, $c0.1))
== r#if
attr: #[verifier::rlimit(30)]
props: C21
after[condition]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| #[trigger] condition.post(s, r) ==> head_gives("if"@, s, r)) by { reveal(head_at); } let condition = vx_only(condition, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| head_gives("if"@, s, r)));
after[r#else]: let r#else = vx_only(r#else, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| word_gives("else"@, s, r)));
after[p]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(s, r) ==> inner_gives(if_at(s.input@, s.offset as int), s, r)) by { reveal(if_at); reveal(else_at); } let p = vx_only(p, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| inner_gives(if_at(s.input@, s.offset as int), s, r)));
pre: proof { broadcast use vx_toysgram::lemma_if_sp; }
pre: proof { vx_toysgram::lemma_words(); }
rel[tree]: gives(if_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: ((Rc<Expr>, Rc<Expr>), Option<Rc<Expr>>)
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::If($c0.0.0, $c0.0.1, $c0.1))
== r#for
attr: #[verifier::rlimit(60)]
props: C21
after[r#for]: let r#for = vx_only(r#for, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| bare_gives("for"@, s, r)));
after[r#in]: let r#in = vx_only(r#in, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, (((), String), ())>| word_gives("in"@, s, r)));
after[to]: let to = vx_only(to, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| word_gives("to"@, s, r)));
after[params]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, ((String, Rc<Expr>), Rc<Expr>)>| #[trigger] params.post(s, r) ==> reads_as(span_at(s.input@, s.offset as int), s, r)) by { reveal(span_at); } let params = vx_only(params, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, ((String, Rc<Expr>), Rc<Expr>)>| reads_as(span_at(s.input@, s.offset as int), s, r)));
after[p]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(s, r) ==> inner_gives(for_at(s.input@, s.offset as int), s, r)) by { reveal(for_at); } let p = vx_only(p, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| inner_gives(for_at(s.input@, s.offset as int), s, r)));
pre: proof { broadcast use vx_toysgram::lemma_for_sp; }
pre: proof { vx_toysgram::lemma_words(); }
rel[tree]: gives(for_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (((String, Rc<Expr>), Rc<Expr>), Rc<Expr>)
clo[map#0] ret: Rc<Expr>
clo[map#0] pre: proof { broadcast use vx_toysgram::lemma_vec_is; }
clo[map#0] ens: $r == for_of($c0.0.0.0, $c0.0.0.1, $c0.0.1, $c0.1)
== block
props: C21
pre: proof { reveal(block_at); }
pre: proof { assert(hint(line_f())); }
rel[tree]: reads_as(block_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: Vec<Rc<Expr>>
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::Block($c0))
== assignment
props: C21
pre: proof { reveal(assignment_at); }
pre: proof { vx_toysgram::lemma_marks(); }
rel[tree]: gives(assignment_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (String, Rc<Expr>)
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::Assignment($c0.0, $c0.1))
== expression_line
props: C21
pre: proof { reveal(statement_at); }
rel[tree]: gives(statement_at($s.input@, $s.offset as int), $s, $r)
== line
props: C21
after[p]: let p = vx_only(p, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| reads_as(any_line_at(s.input@, s.offset as int), s, r)));
pre: proof { broadcast use vx_toysgram::axiom_line; reveal(line_is); }
rel[tree]: reads_as(line_at($s.input@, $s.offset as int), $s, $r)
== global_variable_definition
attr: #[verifier::rlimit(30)]
props: C21
pre: proof { broadcast use {vx_toysgram::lemma_global_sp, vx_toysgram::lemma_named}; }
after[global]: let global = vx_only(global, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| word_gives("global"@, s, r)));
after[global_indent]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| #[trigger] global_indent.post(s, r) ==> named_gives("global"@, s, r)) by { reveal(named_at); } let global_indent = vx_only(global_indent, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| named_gives("global"@, s, r)));
after[eq]: let eq = vx_only(eq, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| ends(tok(s.input@, s.offset as int, '='), s, r)));
after[p]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(s, r) ==> definition_gives(global_at(s.input@, s.offset as int), 'g', s, r)) by { reveal(global_at); } let p = vx_only(p, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| definition_gives(global_at(s.input@, s.offset as int), 'g', s, r)));
pre: proof { vx_toysgram::lemma_marks(); vx_toysgram::lemma_defs(); }
rel[tree]: reads_as(global_at($s.input@, $s.offset as int), $s, $r)
rel[first]: $r is Failure && !unc($r) ==> is_at($s.input@, sp($s.input@, $s.offset as int), 'g')
clo[map#0] ty0: (String, Rc<Expr>)
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::GlobalVariableDefinition($c0.0, $c0.1))
== function_definition
attr: #[verifier::rlimit(30)]
props: C21
pre: proof { broadcast use {vx_toysgram::lemma_function_sp, vx_toysgram::lemma_named}; }
after[define]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| #[trigger] define.post(s, r) ==> named_gives("fn"@, s, r)) by { reveal(named_at); } let define = vx_only(define, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, String>| named_gives("fn"@, s, r)));
after[args]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Vec<String>>| #[trigger] args.post(s, r) ==> names_give(s, r)) by { reveal(names_at); } let args = vx_only(args, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Vec<String>>| names_give(s, r)));
after[p]: assert(forall|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| #[trigger] p.post(s, r) ==> definition_gives(function_at(s.input@, s.offset as int), 'f', s, r)) by { reveal(function_at); } let p = vx_only(p, Ghost(|s: ParseState<'a, char>, r: ParseResult<'a, char, Rc<Expr>>| definition_gives(function_at(s.input@, s.offset as int), 'f', s, r)));
pre: proof { vx_toysgram::lemma_defs(); assert(hint(ident_f())); }
rel[tree]: reads_as(function_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: ((String, Vec<String>), Rc<Expr>)
clo[map#0] ret: Rc<Expr>
clo[map#0] ens: $r == rc(Expr::FunctionDefinition($c0.0.0, $c0.0.1, $c0.1))
== top_level_definition
props: C21
pre: proof { vx_toysgram::lemma_defs(); broadcast use vx_toysgram::lemma_named; reveal(function_at); }
rel[tree]: reads_as(definition_at($s.input@, $s.offset as int), $s, $r)
== program
props: C21
pre: proof { assert(hint(definition_f())); }
rel[tree]: $r is Success && $r->value == program_at($s.input@, $s.offset as int).0 && $r->length == program_at($s.input@, $s.offset as int).1 - $s.offset
clo[map#0] ty0: Vec<Rc<Expr>>
clo[map#0] ret: Expr
clo[map#0] ens: $r == Expr::Program($c0)
clo[map#1] ty0: Expr
clo[map#1] ret: Rc<Expr>
clo[map#1] ens: $r == rc($c0)
