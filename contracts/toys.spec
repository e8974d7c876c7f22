# ---- values
== Value::as_int
props: C23
req[int]: *self is Int
ens[is]: V::I(res as int) == abs(*self)
== Value::as_bool
props: C23
req[bool]: *self is Bool
ens[is]: V::B(res) == abs(*self)
== Value::as_string
props: C23
req[string]: *self is String
ens[is]: V::S(res@) == abs(*self)
# ---- environments
== Environment::as_bindings
props: C23
ens[is]: *res == self.bindings
== Environment::as_bindings_mut
props: C23
pre: proof { reveal(frames); }
ens[is]: *res == old(self).bindings && frames(*final(self)) == frames(*old(self)).drop_last().push(fr(*final(res)))
== Environment::find_binding
props: C23
pre: proof { reveal(frames); }
ens[nearest]: match res { Some(m) => m.m().dom().contains($0@) && lookup(frames(*self), $0@) == Some(abs(m.m()[$0@])), None => !bound(frames(*self), $0@) }
== Environment::assign
props: C23
pre: proof { reveal(frames); }
ens[nearest]: res == bound(frames(*old(self)), $0@) && frames(*final(self)) == updated(frames(*old(self)), $0@, abs(*$1))
== Environment::leave
props: C23
pre: proof { reveal(frames); }
ens[dropped]: frames(*final(self)) == left(frames(*old(self)))
== Environment::new
props: C23
pre: proof { reveal(frames); }
ens[is]: frames(res) == match $1 { Some(n) => frames(*n), None => Seq::<Fr>::empty() }.push(fr($0))
# ---- the interpreter
== Interpreter::new
props: C23
pre: proof { reveal(frames); }
ens[empty]: frames(res.variable_environment) =~~= seq![no_names()] && res.function_environment.m() == Map::<Seq<char>, Rc<Expr>>::empty()
== Interpreter::reset
props: C23
pre: proof { reveal(frames); }
ens[empty]: frames(final(self).variable_environment) =~~= seq![no_names()] && final(self).function_environment.m() == Map::<Seq<char>, Rc<Expr>>::empty()
== Interpreter::get_value
props: C23
req[bound]: frames(self.variable_environment).last().dom().contains($0@)
ens[is]: abs(*res) == frames(self.variable_environment).last()[$0@]
== Interpreter::interpret
split: yes
props: C23
req[defined]: val($0, old(self).function_environment.m(), frames(old(self).variable_environment)) is Some
ens[value]: val($0, old(self).function_environment.m(), frames(old(self).variable_environment)) == Some((abs(res), frames(final(self).variable_environment)))
pre: assert(at_step($0, fns(*self), st(*self)));
ens[functions]: final(self).function_environment == old(self).function_environment
loop[0] inv[walk]: vx_it0@ == refs(kids($0)).skip(vx_vec0@.len() as int)
loop[0] inv[so-far]: self.function_environment == old(self).function_environment && so_far(kids($0), vx_vec0@.len() as int, all_abs(vx_vec0@), fns(*old(self)), st(*old(self)), st(*self))
loop[1] inv[walk]: vx_it1@.len() <= kids($0).len() && vx_it1@ == refs(kids($0)).skip(kids($0).len() - vx_it1@.len())
loop[1] inv[so-far]: self.function_environment == old(self).function_environment && block_so_far(kids($0), kids($0).len() - vx_it1@.len(), %opt, fns(*old(self)), st(*old(self)), st(*self))
loop[2] inve[rest]: at_step($0, fns(*old(self)), st(*self)) && self.function_environment == old(self).function_environment && val($0, fns(*old(self)), st(*old(self))) is Some && val($0, fns(*old(self)), st(*self)) == val($0, fns(*old(self)), st(*old(self)))
loop[2] ens[rest]: self.function_environment == old(self).function_environment && val($0, fns(*old(self)), st(*old(self))) == Some((V::B(true), st(*self)))
loop[3] inv[walk]: vx_it3@ == refs(kids($0)).skip(vx_vec3@.len() as int)
loop[3] inv[so-far]: self.function_environment == old(self).function_environment && so_far(kids($0), vx_vec3@.len() as int, all_abs(vx_vec3@), fns(*old(self)), st(*old(self)), st(*self))
loop[4] inv[walk]: %int + vx_it4@.len() == params_of($0, fns(*old(self))).len() && vx_it4@ == refs(params_of($0, fns(*old(self)))).skip(%int as int)
loop[4] inv[values]: values.len() == all_abs(values@).len() && self.function_environment == old(self).function_environment && vals(kids($0), fns(*old(self)), st(*old(self))) is Some && all_abs(values@) == (vals(kids($0), fns(*old(self)), st(*old(self)))->0).0
loop[4] inv[bound]: bound_so_far(texts(params_of($0, fns(*old(self)))), (vals(kids($0), fns(*old(self)), st(*old(self)))->0).0, %int as int, (vals(kids($0), fns(*old(self)), st(*old(self)))->0).1, st(*self))
loop[5] inv[walk]: vx_it5@ == refs(args_of($0)).skip(vx_vec5@.len() as int) && firsts(vx_vec5@) =~= labels(args_of($0)).take(vx_vec5@.len() as int)
loop[5] inv[so-far]: self.function_environment == old(self).function_environment && so_far(kids($0), vx_vec5@.len() as int, seconds(vx_vec5@), fns(*old(self)), st(*old(self)), st(*self))
loop[6] inv[values]: self.function_environment == old(self).function_environment && vals(kids($0), fns(*old(self)), st(*old(self))) is Some && vx_it6@.len() <= args_of($0).len() && (vals(kids($0), fns(*old(self)), st(*old(self)))->0).0.len() == args_of($0).len() && vx_it6@.len() == firsts(vx_it6@).len()
loop[6] inv[walk]: firsts(vx_it6@) == labels(args_of($0)).skip(args_of($0).len() - vx_it6@.len()) && seconds(vx_it6@) == (vals(kids($0), fns(*old(self)), st(*old(self)))->0).0.skip(args_of($0).len() - vx_it6@.len())
loop[6] inv[bound]: bound_so_far(labels(args_of($0)), (vals(kids($0), fns(*old(self)), st(*old(self)))->0).0, args_of($0).len() - vx_it6@.len(), (vals(kids($0), fns(*old(self)), st(*old(self)))->0).1, st(*self))
== Interpreter::call_main
props: C23
req[defined]: program($0, old(self).function_environment.m(), frames(old(self).variable_environment)) is Some
ens[value]: program($0, old(self).function_environment.m(), frames(old(self).variable_environment)) == Some((abs(res), frames(final(self).variable_environment)))
loop[0] inv[walk]: vx_it0@.len() <= kids($0).len() && vx_it0@ == refs(kids($0)).skip(kids($0).len() - vx_it0@.len())
loop[0] inv[rest]: defs_so_far(kids($0), kids($0).len() - vx_it0@.len(), fns(*old(self)), st(*old(self)), fns(*self), st(*self))
