//! Layout: where lines are broken, how they are indented and spaced, what happens to comments and blank lines. The
//! oracle is the reference layout of `crate::layout`; every property compares the gaps of its own kind.

use super::text::{features, ok_or_judge, program, show};
use super::{tame, Fixed, Prop};
use crate::cfggen::{self, Cfg, OPTIONS};
use crate::engine::{Ctx, Outcome, Src};
use crate::gen::{self, Opts};
use crate::layout::{double_quoted, layout, Cat, Tk};
use crate::lualex::{decode_string, K};
use crate::luaparse::Kd;
use crate::sut::{self, canonical_tokens, fmt, Out, Parsed};

use Outcome::*;

pub fn props() -> Vec<Prop> {
    let p = |id, name, f, fixed: Vec<Fixed>, quick, rule| Prop { id, name, f, fixed, probe: None, quick, thorough: quick * 30, rule };
    vec![
        p("P12", "statement-layout", statements, fixed(&STAT, FIXED), 250000,
          "programs without comments x configurations that replace all whitespace, a quarter with a width; non-trivial: at least 2 statements and a line break at one of the compared gaps"),
        p("P13", "table-layout", tables, fixed(&TABLE, FIXED), 300000,
          "programs with a non-empty table x configurations that replace all whitespace, a quarter with a width; non-trivial: a table separator or bracket was on a new line or a separator changed"),
        p("P14", "expression-layout", expressions, fixed(&EXP, FIXED), 300000,
          "programs with operators, suffixes or expression lists x configurations that replace all whitespace, a quarter with a width; non-trivial: a line break at one of the compared gaps"),
        p("P15", "single-line-layout", width, fixed(&ALL, FIXED), 250000,
          "programs x configurations with max_width and single-line options; non-trivial: these options make a difference to the output"),
        p("P16", "whitespace-kept", whitespace, fixed(&WS, FIXED), 250000,
          "programs with arbitrary whitespace x configurations that keep some of it; non-trivial: a compared gap holds a newline or two blanks of the source"),
        p("P17", "comment-layout", comments, fixed(&COMMENT, FIXED), 250000,
          "programs rich in comments x configurations with comment options; non-trivial: at least 2 compared gaps with comments"),
        p("P18", "quote-conversion", quotes, vec![], 200000,
          "programs with quoted strings (escapes, quotes, non-ASCII) x layout configurations with and without the conversion; non-trivial: a literal in single quotes holds a quote or a backslash"),
    ]
}

/// which gaps a property compares
struct Sel {
    gap: fn(&Tk, plain: bool) -> bool,
    /// the end of the file
    tail: fn(comment: bool) -> bool,
    /// table separators
    separators: bool,
}

const STAT: Sel = Sel {
    gap: |t, plain| matches!(t.cat, Cat::Stat | Cat::Space | Cat::File) && (plain || !t.inner),
    tail: |_| true,
    separators: false,
};
const TABLE: Sel = Sel { gap: |t, _| t.cat == Cat::Table, tail: |_| false, separators: true };
const EXP: Sel = Sel {
    gap: |t, _| matches!(t.cat, Cat::Op | Cat::List | Cat::Suffix) || t.inner && t.cat != Cat::Table,
    tail: |_| false,
    separators: false,
};
const ALL: Sel = Sel { gap: |_, _| true, tail: |_| true, separators: true };
const WS: Sel = Sel { gap: |t, _| !t.comment, tail: |c| !c, separators: false };
const COMMENT: Sel = Sel { gap: |t, _| t.comment, tail: |c| c, separators: false };

/// inputs of the defects repaired so far
const FIXED: &[super::Pair] = &[
    ("x = {1}", &[("hint_table_constructor", "  "), ("replace_zero_spaces_with_hint", "true")]),
    ("x = {}", &[("newline_format_table_constructor", "1"), ("newline_format_table_field", "1"), ("replace_zero_spaces_with_hint", "true")]),
    ("f{\n}", &[("write_newline_at_multiline_table", "true"), ("write_newline_at_explist_multiline_table", "true")]),
    ("f(a, {1})", &[("hint_table_constructor", "  "), ("replace_zero_spaces_with_hint", "true"), ("newline_format_table_field", "1"),
        ("newline_format_exp_list", "1"), ("write_newline_at_multiline_table", "true"), ("indentation_string", "  ")]),
    ("local function f(a)(\n\na + b).a.b() end", &[("max_width", "10"), ("force_single_line_var_suffix", "true"), ("newline_format_var_suffix", "1"),
        ("indent_var_suffix", "true"), ("indentation_string", "    "), ("newline_format_function", "1"), ("remove_spaces_between_tokens", "true"),
        ("replace_zero_spaces_with_hint", "true")]),
    ("x = 1 -- [[ c\ny = 2", &[("hint_before_oneline_comment_text", "")]),
    ("x = 1 --[[ c] ]] y = 2", &[("hint_after_multiline_comment_text", "")]),
    ("x = 1 - --c\n y", &[("hint_before_comment", ""), ("remove_spaces_between_tokens", "true"), ("replace_zero_spaces_with_hint", "true")]),
];

fn fixed(sel: &'static Sel, pairs: &'static [super::Pair]) -> Vec<Fixed> {
    pairs
        .iter()
        .map(|(src, cfg)| {
            Box::new(move |ctx: &mut Ctx| {
                let cfg = Cfg::of(cfg);
                judge(ctx, &sut::parse(src).expect("fixed input"), &cfg, sel, false).0
            }) as Fixed
        })
        .collect()
}

/// a configuration that replaces all the whitespace of the input
fn normal(c: &mut Cfg) {
    for k in ["remove_spaces_between_tokens", "remove_all_newlines", "replace_zero_spaces_with_hint"] {
        c.set(k, "true");
    }
}

/// mostly without max_width; single-line options alone break no lines and join none (but they do have a say in tables)
fn widths(s: &mut Src, c: &mut Cfg) {
    if s.chance(1, 4) {
        if c.get("max_width").is_none() {
            c.set("max_width", &s.range(0, 100).to_string());
        }
    } else if s.chance(1, 3) {
        c.unset("max_width");
        let n = s.pick_c(OPTIONS).0;
        if n.starts_with("force_single_line") {
            c.set(n, "true");
        }
    } else {
        no_width(c);
    }
}

fn no_width(c: &mut Cfg) {
    c.0.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"));
}

struct Seen {
    /// line breaks at compared gaps
    breaks: usize,
    /// compared gaps
    gaps: usize,
    /// compared gaps with a newline or two blanks
    wide: usize,
    out: String,
}

/// compares the selected gaps
fn judge(ctx: &mut Ctx, p: &Parsed, cfg: &Cfg, sel: &Sel, plain: bool) -> (Outcome, Seen) {
    let mut seen = Seen { breaks: 0, gaps: 0, wide: 0, out: String::new() };
    let o = compare(ctx, p, cfg, sel, plain, &mut seen);
    (o, seen)
}

fn compare(ctx: &mut Ctx, p: &Parsed, cfg: &Cfg, sel: &Sel, plain: bool, seen: &mut Seen) -> Outcome {
    ctx.desc = show(&p.src, cfg);
    features(ctx, p);
    let out = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    let want = layout(p, cfg);
    let q = match sut::parse(&out) {
        Ok(q) => q,
        Err(_) => return Skip("output is not a valid program (see the property about tokens)"),
    };
    let n = q.lx.toks.len();
    if want.toks.len() != n || want.toks.iter().zip(&q.lx.toks).any(|(a, b)| a.text != b.s) {
        let vals = cfg.on("convert_charstring_to_normalstring");
        if sel.separators && canonical_tokens(p, vals) == canonical_tokens(&q, vals) {
            return Fail(format!("table separators: expected {:?}\ngot {:?}", want.s, out));
        }
        return Skip("tokens differ (see the properties about tokens and tables)");
    }
    let mut at = q.lx.shebang.as_ref().map(|s| (s.len() + 1).min(out.len())).unwrap_or(0);
    for i in 0..n {
        let t = &q.lx.toks[i];
        let gap = &out[at..t.start];
        at = t.end;
        let w = &want.toks[i];
        if !(sel.gap)(w, plain) {
            continue;
        }
        seen.gaps += 1;
        seen.breaks += w.gap.contains('\n') as usize;
        seen.wide += (w.gap.contains('\n') || w.gap.len() > 1) as usize;
        if w.gap != gap {
            return Fail(format!(
                "before token {} ({:?}): expected {:?}, got {:?}\nexpected output {:?}\ngot             {:?}",
                i, w.text, w.gap, gap, want.s, out
            ));
        }
    }
    if (sel.tail)(want.end_comment) {
        seen.gaps += want.end_comment as usize;
        if want.tail() != &out[at..] {
            return Fail(format!("end of file: expected {:?}, got {:?}\nexpected output {:?}\ngot             {:?}", want.tail(), &out[at..], want.s, out));
        }
    }
    seen.out = out;
    Pass(true)
}

fn nontrivial(r: (Outcome, Seen), f: impl Fn(&Seen) -> bool) -> Outcome {
    match r.0 {
        Pass(_) => Pass(f(&r.1)),
        o => o,
    }
}

const EXP_OPTIONS: &[&str] = &[
    "newline_format_binary_op", "newline_format_var_suffix", "newline_format_exp_list", "newline_format_exp_list_first",
    "indent_var_suffix", "indent_one_line_var_suffix", "indent_exp_list", "indent_one_line_exp_list",
    "write_newline_at_multiline_table", "write_newline_at_explist_multiline_table",
];

fn statements(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 0, stats: 7, ..Opts::default() });
    let mut cfg = cfggen::gen_raw(s);
    normal(&mut cfg);
    widths(s, &mut cfg);
    super::tame(ctx, &p, &mut cfg);
    let plain = s.chance(1, 2);
    if plain {
        cfg.0.retain(|(k, _)| !EXP_OPTIONS.contains(&&k[..]) && !k.starts_with("newline_format_table"));
    }
    let stats = p.tree.c.len();
    nontrivial(judge(ctx, &p, &cfg, &STAT, plain), |s| stats >= 2 && s.breaks > 0)
}

/// likely values for the options a property is about
fn lean(s: &mut Src, cfg: &mut Cfg, names: &[&str]) {
    for n in names {
        if s.chance(1, 2) {
            let ty = OPTIONS.iter().find(|o| o.0 == *n).unwrap().1;
            let v = cfggen::gen_value(s, ty);
            cfg.set(n, &v);
        }
    }
}

fn tables(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 0, ..Opts::default() });
    let mut cfg = cfggen::gen_raw(s);
    lean(s, &mut cfg, &["newline_format_table_constructor", "newline_format_table_field", "hint_table_constructor", "field_separator",
        "write_trailing_field_separator", "write_newline_at_multiline_table"]);
    normal(&mut cfg);
    widths(s, &mut cfg);
    super::tame(ctx, &p, &mut cfg);
    if !p.tree.any(&|n| n.k == Kd::Table) {
        return Skip("no table");
    }
    nontrivial(judge(ctx, &p, &cfg, &TABLE, false), |s| s.gaps >= 2)
}

fn expressions(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 0, many_suffixes: true, ..Opts::default() });
    let mut cfg = cfggen::gen_raw(s);
    lean(s, &mut cfg, EXP_OPTIONS);
    normal(&mut cfg);
    widths(s, &mut cfg);
    super::tame(ctx, &p, &mut cfg);
    nontrivial(judge(ctx, &p, &cfg, &EXP, false), |s| s.breaks > 0)
}

fn width(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    // constructs much longer in the source than in the output: which ones are tried at all depends on that
    let style = if s.chance(1, 5) { Some(gen::Style::Sparse) } else { None };
    let p = program(s, &Opts { comments: 3, style, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    if s.chance(2, 3) {
        normal(&mut cfg);
    }
    let w = if s.chance(1, 10) { s.range(0, 12) } else { s.range(8, 100) };
    if s.chance(9, 10) {
        cfg.set("max_width", &w.to_string());
    } else {
        cfg.unset("max_width");
    }
    for (n, _) in OPTIONS {
        if n.starts_with("force_single_line") && s.chance(1, 2) {
            cfg.set(n, if s.chance(4, 5) { "true" } else { "false" });
        }
    }
    if super::cost_with(&p.tree, &cfg) > super::MOST {
        return Skip("deep nesting");
    }
    let r = judge(ctx, &p, &cfg, &ALL, true);
    if let Pass(_) = r.0 {
        let mut c2 = cfg.clone();
        no_width(&mut c2);
        let other = fmt(ctx, &p.src, &c2.config());
        return Pass(!matches!(other, Out::Ok(o) if o == r.1.out));
    }
    r.0
}

fn whitespace(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 3, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    widths(s, &mut cfg);
    super::tame(ctx, &p, &mut cfg);
    lean(s, &mut cfg, &["remove_single_newlines", "remove_spaces_between_tokens", "write_newline_at_eof"]);
    if s.chance(3, 4) {
        cfg.unset("remove_all_newlines");
    }
    if s.chance(1, 3) {
        cfg.0.retain(|(k, _)| !k.starts_with("newline_format"));
    }
    cfg.make_safe();
    nontrivial(judge(ctx, &p, &cfg, &WS, true), |s| s.wide > 0)
}

fn comments(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 25, stats: 3, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    widths(s, &mut cfg);
    super::tame(ctx, &p, &mut cfg);
    lean(s, &mut cfg, &["hint_before_comment", "hint_after_multiline_comment", "hint_after_multiline_comment_text",
        "hint_before_multiline_comment_text", "hint_before_oneline_comment_text", "newline_format_first_oneline_comment",
        "newline_format_first_multiline_comment", "newline_format_oneline_comment", "newline_format_multiline_comment"]);
    if s.chance(9, 10) {
        cfg.unset("remove_comments");
    }
    cfg.make_safe();
    nontrivial(judge(ctx, &p, &cfg, &COMMENT, true), |s| s.gaps > 1)
}

fn quotes(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 3, stats: 4, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    let on = s.chance(3, 4);
    cfg.set("convert_charstring_to_normalstring", if on { "true" } else { "false" });
    tame(ctx, &p, &mut cfg);
    ctx.desc = show(&p.src, &cfg);
    features(ctx, &p);
    let out = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    let q = match sut::parse(&out) {
        Ok(q) => q,
        Err(_) => return Skip("output is not a valid program (see the property about tokens)"),
    };
    let strs = |p: &Parsed| p.lx.toks.iter().filter(|t| matches!(t.k, K::Str | K::LongStr)).map(|t| t.s.clone()).collect::<Vec<_>>();
    let (a, b) = (strs(&p), strs(&q));
    if a.len() != b.len() {
        return Skip("tokens differ (see the property about tokens)");
    }
    let mut rich = 0;
    for (x, y) in a.iter().zip(&b) {
        let single = x.starts_with('\'');
        let want = if on && single { double_quoted(x) } else { x.clone() };
        if &want != y {
            return Fail(format!("literal {} became {}, expected {}", x, y, want));
        }
        if !x.starts_with('[') && decode_string(x) != decode_string(y) {
            return Fail(format!("literal {} became {} with another value", x, y));
        }
        rich += (single && (x.contains('"') || x.contains('\\'))) as usize;
    }
    Pass(rich > 0)
}
