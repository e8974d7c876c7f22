# the constructors of the syntax tree
== Expr::of_less_than
props: C21
ens[is]: *res == Expr::Binary(Operator::LessThan, $0, $1)
== Expr::of_greater_than
props: C21
ens[is]: *res == Expr::Binary(Operator::GreaterThan, $0, $1)
== Expr::of_less_or_equal
props: C21
ens[is]: *res == Expr::Binary(Operator::LessOrEqual, $0, $1)
== Expr::of_greater_or_equal
props: C21
ens[is]: *res == Expr::Binary(Operator::GreaterOrEqual, $0, $1)
== Expr::of_equal_equal
props: C21
ens[is]: *res == Expr::Binary(Operator::EqualEqual, $0, $1)
== Expr::of_not_equal
props: C21
ens[is]: *res == Expr::Binary(Operator::NotEqual, $0, $1)
== Expr::of_and
props: C21
ens[is]: *res == Expr::Binary(Operator::And, $0, $1)
== Expr::of_or
props: C21
ens[is]: *res == Expr::Binary(Operator::Or, $0, $1)
== Expr::of_add
props: C21
ens[is]: *res == Expr::Binary(Operator::Add, $0, $1)
== Expr::of_subtract
props: C21
ens[is]: *res == Expr::Binary(Operator::Subtract, $0, $1)
== Expr::of_mod
props: C21
ens[is]: *res == Expr::Binary(Operator::Mod, $0, $1)
== Expr::of_multiply
props: C21
ens[is]: *res == Expr::Binary(Operator::Multiply, $0, $1)
== Expr::of_divide
props: C21
ens[is]: *res == Expr::Binary(Operator::Divide, $0, $1)
== Expr::of_string_literal
props: C21
ens[is]: *res == Expr::StringLiteral($0)
== Expr::of_binary
props: C21
ens[is]: *res == Expr::Binary($0, $1, $2)
== Expr::of_global_variable_definition
props: C21
ens[is]: *res == Expr::GlobalVariableDefinition($0, $1)
== Expr::of_function_definition
props: C21
ens[is]: *res == Expr::FunctionDefinition($0, $1, $2)
== Expr::of_function_call
props: C21
ens[is]: *res == Expr::FunctionCall($0, $1)
== Expr::of_labelled_call
props: C21
ens[is]: *res == Expr::LabelledCall($0, $1)
== Expr::of_symbol
props: C21
ens[is]: *res == Expr::Symbol($0)
== Expr::of_bool_literal
props: C21
ens[is]: *res == Expr::BoolLiteral($0)
== Expr::of_integer_literal
props: C21
ens[is]: *res == Expr::IntegerLiteral($0)
== Expr::of_array_literal
props: C21
ens[is]: *res == Expr::ArrayLiteral($0)
== Expr::of_println
props: C21
ens[is]: *res == Expr::Println($0)
== Expr::of_block
props: C21
ens[is]: *res == Expr::Block($0)
== Expr::of_while
props: C21
ens[is]: *res == Expr::While($0, $1)
== Expr::of_if
props: C21
ens[is]: *res == Expr::If($0, $1, $2)
== Expr::of_assignment
props: C21
ens[is]: *res == Expr::Assignment($0, $1)
== LabelledParameter::new
props: C21
ens[is]: res.name == $0 && res.parameter == $1
