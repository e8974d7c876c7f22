import os
from dv import *
C = os.path.join(VERIF, "contracts")


ITER = {"any/1": "vx_any", "all/1": "vx_all", "step_by/1": "vx_step_by", "into_iter/0": "vx_into_iter", "iter/0": "vx_iter"}


def lets(unit):
    """The locals of grammar functions that are functions of their own: those that have a contract of their own."""
    with open(f"{C}/{unit}.spec") as f:
        heads = [l[2:] for l in f if l.startswith("==")]
    return ",".join(k.strip()[3:] for h in heads for k in h.split(",") if k.strip().startswith("vx_"))


class U(Unit):
    skip_types = set()
    only_types = None
    type_attrs = {}
    emit_uncontracted = set()
    broadcast = []
    renames = {}
    aliases = {}
    vx_flags = []
    inherent = {}
    prologue = ""        # a proof statement at the head of every function
    features = ""        # crate attributes
    stub_crates = []     # crates whose functions are only assumed to meet their contracts here (another unit proves them)


def parser_unit():
    u = U("parser", ["parser"], [f"{C}/parser.spec"], [f"{C}/base_prelude.rs", f"{C}/parser_prelude.rs"], ops=False)
    u.only_types = {"ParseState", "ParseError", "ParseResult", "CommittedStatus", "Bound", "LogLevel", "ParsersImpl", "ParserParsers"}
    u.type_attrs = {"CommittedStatus": "#[derive(Clone, Copy)]"}
    u.broadcast = ["vx_lemmas::" + x for x in ("axiom_clone_faithful", "axiom_cloned_faithful", "axiom_post_fits", "lemma_adv0", "lemma_right_ok", "lemma_right_fail", "lemma_left_step", "lemma_right_step", "lemma_items_one", "lemma_items_push", "lemma_items_push_sep", "lemma_stop_full", "lemma_stop_sep", "lemma_stop_item", "lemma_stop_item_sep", "lemma_rep_none", "lemma_rep_first_fails")]
    return u


def cron_unit():
    u = U("cron", ["crond"], [f"{C}/cron.spec"], [f"{C}/base_prelude.rs", f"{C}/iter_prelude.rs", f"{C}/cron_prelude.rs"], ops=False)
    u.renames = ITER
    u.inherent = {"Iterator"}
    u.imports = "use std::marker::PhantomData;"
    u.broadcast = ["vx_lemmas::axiom_at", "vx_lemmas::lemma_later_later"]
    u.type_attrs = {n: "#[verifier::reject_recursive_types(Tz)] #[verifier::reject_recursive_types(S)]" for n in ("CronInterval", "CronIntervalIterator")}
    u.type_attrs.update({"CronEvaluator": "#[verifier::reject_recursive_types(Tz)]", "CronSchedule": "#[verifier::reject_recursive_types(Tz)]"})
    return u


def hocon_unit():
    u = U("hocon", ["hocon"], [f"{C}/hocon.spec"], [f"{C}/base_prelude.rs", f"{C}/for_prelude.rs", f"{C}/hocon_prelude.rs", f"{C}/hocon_path_prelude.rs", f"{C}/hocon_resolve_prelude.rs"], ops=False)
    u.only_types = {"ConfigValue", "ConfigObjectValue", "ConfigArrayValue", "ConfigNumberValue", "ConfigDurationValue", "ConfigIncludeValue", "ConfigValueLink", "TimeUnit", "Config", "ConfigError"}
    u.inherent = {"ConfigMergeable", "Monoid", "ConfigResolver", "FileReader"}
    u.aliases = {"std::time::Duration": "VxStdDuration", "chrono::Duration": "VxChronoDuration"}
    u.vx_flags = ["--for-loops"]
    u.renames = {"split/1": "vx_split", "len/0": "vx_len", "reverse/0": "vx_reverse", "is_empty/0": "vx_is_empty", "extend/1": "vx_extend", "as_bytes/0": "vx_as_bytes", "resolve.unwrap/0": "vx_unwrap", "resolve.panic!": "vx_stop", "resolve.slice": "vx_slice", "resolve.contains/1": "vx_contains", "resolve.to_string/0": "vx_to_string", "resolve.last/0": "vx_last", "resolve.get_value/1": "vx_get_value", "resolve.push_str/1": "vx_push_str", "resolve.ok/0": "vx_ok", "resolve.into_iter/0": "vx_into", "resolve.split/1": "vx_words", "resolve.clone/0": "vx_clone", "resolve.or_else/1": "vx_or_else", "resolve.map_or/2": "vx_map_or", "resolve.as_mut/0": "vx_as_mut", "resolve.cloned/0": "vx_cloned", "resolve_stage1.clone/0": "vx_clone", "resolve_stage0.clone/0": "vx_clone", "resolve_stage0.cloned/0": "vx_cloned", "resolve_stage0.unwrap_or/1": "vx_unwrap_or", "resolve_stage0.first/0": "vx_first", "resolve_stage0.iter/0": "vx_walk", "parse_from_string.to_string/0": "vx_to_string"}
    u.aliases["env::var"] = "vx_env"
    u.broadcast = ["vx_hocon_lemmas::axiom_order", "vx_hocon_lemmas::axiom_blen", "vx_hocon_lemmas::lemma_factor", "vx_hocon_lemmas::lemma_merge_step", "vx_hocon_lemmas::lemma_merge_case", "vx_hocon_lemmas::lemma_push_step", "vx_hocon_lemmas::lemma_find"]
    return u


def uri_unit():
    u = U("uri", ["uri"], [f"{C}/uri.spec"], [f"{C}/base_prelude.rs", f"{C}/for_prelude.rs", f"{C}/uri_prelude.rs"], ops=False)
    u.only_types = {"Path", "Query", "UserInfo", "Authority", "HierPart", "Uri", "HostName", "IpLiteral", "Scheme", "Fragment"}
    u.inherent = {"Display", "From", "Default"}
    u.vx_flags = ["--for-loops", "--fmt"]
    u.broadcast = ["vx_uri_lemmas::" + x for x in ("lemma_fold", "lemma_query", "lemma_values", "lemma_has", "lemma_no_values")]
    u.renames = {"to_string/0": "vx_to_string", "into_iter/0": "vx_into", "iter/0": "vx_iter", "join/1": "vx_join", "len/0": "vx_len"}
    u.aliases = {"Vec::from": "vx_vec_from", "std::fmt::Result": "VxFmtResult", "fmt::Result": "VxFmtResult"}
    return u


def toys_unit():
    u = U("toys", ["toys"], [f"{C}/toys.spec", f"{C}/toysmodel.spec"], [f"{C}/base_prelude.rs", f"{C}/for_prelude.rs", f"{C}/toys_prelude.rs"], ops=False)
    u.only_types = {"Environment", "Expr", "LabelledParameter", "Operator", "Value", "Interpreter"}
    u.inherent = {"Display"}
    u.vx_flags = ["--for-loops", "--fmt"]
    u.broadcast = ["vx_toys_lemmas::" + x for x in ("lemma_div", "lemma_rem", "lemma_firsts", "lemma_seconds", "lemma_unbound", "lemma_all_abs", "lemma_abs", "lemma_at_step", "lemma_frm", "lemma_frm_at", "lemma_frm_none", "lemma_frames",
        "lemma_seq_start", "lemma_seq_next", "lemma_seq_step", "lemma_block_start", "lemma_block_next", "lemma_block_step", "lemma_bind_start", "lemma_bind_end", "lemma_bind_step",
        "lemma_defs_start", "lemma_defs_next", "lemma_defs_step", "lemma_lookup", "lemma_lookup_none", "lemma_updated", "lemma_updated_none")]
    u.renames = {"iter/0": "vx_iter", "len/0": "vx_len", "to_string/0": "vx_to_string"}
    u.aliases = {"Rc::make_mut": "vx_make_mut"}
    return u


PARSER_TYPES = {"ParseState", "ParseError", "ParseResult", "CommittedStatus", "Bound", "LogLevel", "ParsersImpl", "ParserParsers"}


def crongram_unit():
    u = U("crongram", ["parser", "crond"], [f"{C}/parser.spec", f"{C}/crongram.spec"],
          [f"{C}/base_prelude.rs", f"{C}/parser_prelude.rs", f"{C}/ops_prelude.rs", f"{C}/crongram_prelude.rs"], ops=False)
    u.stub_crates = ["parser"]
    u.only_types = PARSER_TYPES | {"CronExpr", "CronParser"}
    u.type_attrs = {"CommittedStatus": "#[derive(Clone, Copy)]"}
    u.imports = "use CronExpr::{NoOp, ValueExpr, LastValueExpr, AnyValueExpr, PerExpr, RangeExpr, ListExpr};\nuse vstd::std_specs::ops::*;"
    u.prologue = "proof { vx_gram::lemma_chars(); }"
    u.renames = {"chars/0": "vx_chars", "to_string/0": "vx_to_string"}
    u.aliases = {"Box::from": "vx_box_from"}
    u.broadcast = ["vx_lemmas::" + x for x in ("axiom_clone_faithful", "axiom_post_fits", "lemma_adv0")] + ["vx_gram::" + x for x in ("axiom_char_eq", "axiom_char_le", "axiom_vec", "lemma_list")]
    return u


def urigram_unit():
    m = uri_unit()
    u = U("urigram", ["parser", "uri"], [f"{C}/parser.spec", f"{C}/uri.spec", f"{C}/urigram.spec"],
          [f"{C}/base_prelude.rs", f"{C}/parser_prelude.rs", f"{C}/ops_prelude.rs", f"{C}/for_prelude.rs", f"{C}/uri_prelude.rs", f"{C}/urigram_prelude.rs", f"{C}/urigram_print.rs"], ops=False)
    u.stub_crates = ["parser", "uri/src/models", "!Uri::parse"]   # ! = proved here all the same
    u.only_types = PARSER_TYPES | m.only_types | {"H16", "LS32"}
    u.type_attrs = {"CommittedStatus": "#[derive(Clone, Copy)]"}
    u.inherent = m.inherent
    u.imports = "use vstd::std_specs::ops::*;"
    u.prologue = "proof { vx_gram::lemma_bytes(); }"
    u.renames = dict(m.renames, **{"parse/0": "vx_parse", "as_bytes/0": "vx_as_bytes", "extend/1": "vx_extend"})
    u.aliases = dict(m.aliases, **{"String::from_utf8": "vx_from_utf8", "u16::from_str_radix": "vx_u16_radix", "Option::flatten": "vx_flatten", "Option::unwrap_or_default": "vx_host_or_default"})
    u.vx_flags = ["--for-loops", "--fmt", "--bytes", "--lets=" + lets("urigram")]
    u.broadcast = ["vx_lemmas::" + x for x in ("axiom_clone_faithful", "axiom_cloned_faithful", "axiom_post_fits", "lemma_adv0")] + ["vx_gram::" + x for x in ("axiom_byte_eq", "axiom_byte_le", "lemma_has", "lemma_rest", "lemma_run", "lemma_run_ascii", "lemma_vrun", "lemma_digit_run", "lemma_run_n", "lemma_vrun_n", "lemma_strings", "lemma_prun", "lemma_two")]
    return u


def toysgram_unit():
    u = U("toysgram", ["parser", "toys"], [f"{C}/parser.spec", f"{C}/toysmodel.spec", f"{C}/toysgram.spec"],
          [f"{C}/base_prelude.rs", f"{C}/parser_prelude.rs", f"{C}/ops_prelude.rs", f"{C}/toysgram_prelude.rs"], ops=False)
    u.stub_crates = ["parser", "toys/src/expr.rs", "toys/src/labelled_parameter.rs"]
    u.only_types = PARSER_TYPES | {"Expr", "LabelledParameter", "Operator"}
    u.type_attrs = {"CommittedStatus": "#[derive(Clone, Copy)]"}
    u.imports = "use vstd::std_specs::ops::*;"
    u.prologue = "proof { vx_toysgram::lemma_chars(); }"
    u.renames = {"to_string/0": "vx_to_string", "concat/0": "vx_concat", "parse/0": "vx_parse", "is_digit/1": "vx_is_digit"}
    u.aliases = {"String::from_iter": "vx_from_iter", "u16::from_str_radix": "vx_u16_radix"}
    u.vx_flags = ["--paths"]
    u.opaque = ["tag_post"]
    u.features = "#![feature(fn_traits, unboxed_closures)]\n"
    u.broadcast = ["vx_lemmas::" + x for x in ("axiom_clone_faithful", "axiom_post_fits", "lemma_adv0")] + ["vx_toysgram::" + x for x in ("axiom_char_eq", "axiom_str", "axiom_vec", "axiom_name_pattern", "axiom_number_pattern", "lemma_sp", "lemma_word", "lemma_tag", "lemma_many", "lemma_blanks", "lemma_one", "lemma_commas", "lemma_chain")]
    return u


def hocongram_unit():
    u = U("hocongram", ["parser", "hocon"], [f"{C}/parser.spec", f"{C}/hocon.spec", f"{C}/hocongram.spec"],
          [f"{C}/base_prelude.rs", f"{C}/parser_prelude.rs", f"{C}/ops_prelude.rs", f"{C}/for_prelude.rs", f"{C}/hocon_prelude.rs", f"{C}/hocongram_prelude.rs"], ops=False)
    m = hocon_unit()
    u.stub_crates = ["parser", "hocon/src/model"]
    u.skip = ["ConfigResolver for ConfigValue::resolve", "ConfigFactory::resolve_stage0", "ConfigFactory::resolve_stage1", "ConfigFactory::parse_from_string", "FileReader for DefaultFileReader::read_to_string", "ConfigFactory::load_from_file", "ConfigFactory::new"]
    u.only_types = PARSER_TYPES | m.only_types
    u.inherent = m.inherent
    u.type_attrs = {"CommittedStatus": "#[derive(Clone, Copy)]"}
    u.imports = "use vstd::std_specs::ops::*;"
    u.prologue = "proof { vx_hocongram::lemma_bytes(); }"
    u.opaque = ["seq_post"]
    u.features = "#![feature(fn_traits, unboxed_closures)]\n"
    u.renames = dict(m.renames, **{"into_iter/0": "vx_into", "to_string/0": "vx_to_string", "concat/0": "vx_concat", "push_str/1": "vx_push_str", "map_or/2": "vx_map_or", "unwrap_or_default/0": "vx_unwrap_or_default"})
    u.aliases = dict(m.aliases, **{"String::from_utf8": "vx_from_utf8", "std::str::from_utf8": "vx_str_from_utf8", "u16::from_str_radix": "vx_u16_radix", "String::from": "vx_string_from"})
    u.vx_flags = ["--byte-text", "--bytes", "--fmt", "--paths", "--lets=" + lets("hocongram")]
    u.broadcast = ["vx_lemmas::" + x for x in ("axiom_clone_faithful", "axiom_cloned_faithful", "axiom_post_fits", "lemma_adv0")] + ["vx_hocongram::" + x for x in ("axiom_byte_eq", "axiom_byte_le", "axiom_vec", "axiom_str", "axiom_ascii", "lemma_class", "lemma_has", "lemma_kw", "lemma_rest", "lemma_seq", "lemma_sc", "lemma_run_end", "lemma_run", "lemma_many", "lemma_commas")]
    return u


UNITS = {"hocongram": hocongram_unit, "toysgram": toysgram_unit, "urigram": urigram_unit, "crongram": crongram_unit, "toys": toys_unit, "uri": uri_unit, "hocon": hocon_unit, "parser": parser_unit, "cron": cron_unit}
