//! Relations between several runs: what the layout may depend on, and how the time grows.

use super::text::{features, ok_or_judge, program, show};
use super::{cost, tame, Prop};
use crate::cfggen::{self, Cfg};
use crate::engine::{hash64, Ctx, Outcome, Src};
use crate::gen::{self, Opts, Sk};
use crate::lualex::{is_kw, K};
use crate::luaparse::Kd;
use crate::sut::{self, fmt, Out};

use Outcome::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P25",
            name: "names-and-texts",
            f: names,
            fixed: vec![],
            probe: None,
            quick: 150000,
            thorough: 3000000,
            rule: "programs x configurations (a quarter with line_range); every identifier is replaced by another of the same length, every letter in strings and comments by another (also non-ASCII) character; the outputs must correspond; non-trivial: at least 5 tokens, a non-ASCII character came in and the output differs from the input",
        },
        Prop {
            id: "P26",
            name: "independent-statements",
            f: independent,
            fixed: vec![],
            probe: None,
            quick: 120000,
            thorough: 2500000,
            rule: "two programs, put one behind the other or the first one inside of a block; the outputs must be composed in the same way; non-trivial: both programs have at least 4 tokens",
        },
        Prop {
            id: "P27",
            name: "time",
            f: time,
            fixed: vec![],
            probe: Some(nested_is_slow),
            quick: 160,
            thorough: 4000,
            rule: "a construct (statement sequence, list, table, chain, comments, literal) repeated n and 16 n times x configurations; 16 times the input may take at most 80 times the processor time (plus 0.1 s); non-trivial: the larger input has more than 10000 characters",
        },
        Prop {
            id: "P29",
            name: "options-of-absent-constructs",
            f: absent,
            fixed: vec![],
            probe: None,
            quick: 120000,
            thorough: 4000000,
            rule: "a program which lacks some kinds of constructs x two configurations (a quarter with line_range) that differ in options of those constructs only; the outputs must be the same; non-trivial: at least 5 tokens, the configurations differ and the output differs from the input",
        },
    ]
}

// ---------------------------------------------------------------------------------------------------------------

/// the options which have nothing to act on in this program
fn idle(p: &sut::Parsed, cfg: &Cfg) -> Vec<(&'static str, &'static str)> {
    let mut v: Vec<(&'static str, &'static str)> = vec![];
    let has = |w: &str| p.lx.toks.iter().any(|t| t.s == w && t.k != K::Str && t.k != K::LongStr);
    let count = |w: &str| p.lx.toks.iter().filter(|t| t.k == K::Kw && t.s == w).count();
    let kind = |k: Kd| {
        let mut found = false;
        p.tree.walk(&mut |n| found |= n.k == k);
        found
    };
    let mut put = |what: &'static str, names: &[&'static str]| v.extend(names.iter().map(|n| (what, *n)));
    if !has("while") {
        put("while", &["newline_format_while"]);
    }
    if !has("for") {
        put("for", &["newline_format_for"]);
    }
    if !has("repeat") {
        put("repeat", &["newline_format_repeat_until"]);
    }
    if count("do") == count("while") + count("for") {
        put("do", &["newline_format_do_end"]);
    }
    if !has("if") {
        put("if", &["newline_format_if", "force_single_line_if"]);
    }
    if !has("function") {
        put("function", &["newline_format_function", "force_single_line_top_level_function", "force_single_line_scoped_function"]);
    }
    if !has("{") {
        put("table", &["newline_format_table_constructor", "newline_format_table_field", "hint_table_constructor", "field_separator",
            "write_trailing_field_separator", "write_newline_at_multiline_table", "write_newline_at_explist_multiline_table",
            "force_single_line_table", "force_single_line_iv_table_field", "force_single_line_kv_table_field"]);
    }
    if !kind(Kd::Bin) {
        put("binary operator", &["newline_format_binary_op", "force_single_line_binary_op"]);
    }
    if !kind(Kd::Suffixed) {
        put("suffix", &["newline_format_var_suffix", "force_single_line_var_suffix", "indent_var_suffix", "indent_one_line_var_suffix"]);
    }
    if !kind(Kd::ExpList) {
        put("list of expressions", &["newline_format_exp_list", "newline_format_exp_list_first", "indent_exp_list",
            "indent_one_line_exp_list", "force_single_line_exp_list"]);
    }
    if p.lx.comments.is_empty() {
        put("comment", &["hint_after_multiline_comment", "hint_after_multiline_comment_text", "hint_before_comment",
            "hint_before_multiline_comment_text", "hint_before_oneline_comment_text", "remove_comments",
            "newline_format_first_oneline_comment", "newline_format_first_multiline_comment", "newline_format_oneline_comment",
            "newline_format_multiline_comment"]);
    }
    if !p.lx.toks.iter().any(|t| t.k == K::Str && t.s.starts_with('\'')) {
        put("string in single quotes", &["convert_charstring_to_normalstring"]);
    }
    if cfg.get("max_width").is_none() {
        put("width", &["force_single_line_binary_op", "force_single_line_if", "force_single_line_top_level_function",
            "force_single_line_scoped_function", "force_single_line_var_suffix", "force_single_line_exp_list"]);
    }
    v
}

fn absent(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    const NO: &[&[Sk]] = &[
        &[],
        &[Sk::If, Sk::While],
        &[Sk::ForNum, Sk::ForIn, Sk::Do],
        &[Sk::Repeat, Sk::Func, Sk::LocalFunc],
        &[Sk::If, Sk::Func, Sk::LocalFunc, Sk::ForIn],
        &[Sk::While, Sk::Repeat, Sk::Do],
        &[Sk::Call, Sk::ParenCall, Sk::Func, Sk::Return],
        &[Sk::Local, Sk::Assign, Sk::Call, Sk::ParenCall, Sk::ForIn, Sk::Return],
    ];
    let o = Opts {
        no: NO[s.below(NO.len())],
        tables: s.chance(1, 2),
        funcs: s.chance(1, 3),
        binops: s.chance(1, 2),
        comments: if s.chance(1, 2) { 6 } else { 0 },
        exp_depth: s.range(0, 3),
        stats: s.range(1, 5),
        ..Opts::default()
    };
    let p = program(s, &o);
    let mut a = cfggen::gen_safe(s);
    if s.chance(1, 4) {
        super::text::gen_range(s, &mut a, &p.src);
    }
    tame(ctx, &p, &mut a);
    let off = idle(&p, &a);
    let mut b = a.clone();
    for &(what, n) in &off {
        if s.chance(1, 2) {
            let old = b.get(n).map(|x| x.to_string());
            let ty = cfggen::OPTIONS.iter().find(|x| x.0 == n).unwrap().1;
            let v = cfggen::gen_value(s, ty);
            if old.is_some() && s.chance(1, 3) {
                b.unset(n);
            } else {
                b.set(n, &v);
            }
            if b.get(n) != old.as_ref().map(|x| &x[..]) {
                ctx.label(what);
            }
        }
    }
    if super::cost_with(&p.tree, &b) > super::MOST {
        return Skip("deep nesting");
    }
    ctx.desc = format!("{}\nthe other configuration: {}", show(&p.src, &a), b.show());
    features(ctx, &p);
    let x = ok_or_judge!(fmt(ctx, &p.src, &a.config()));
    let y = ok_or_judge!(fmt(ctx, &p.src, &b.config()));
    if x != y {
        return Fail(format!("without the other options: {:?}\nwith the other options:    {:?}", x, y));
    }
    Pass(p.lx.toks.len() >= 5 && a.config() != b.config() && x != p.src)
}

// ---------------------------------------------------------------------------------------------------------------

const OTHER: &[char] = &['é', 'ж', '日', 'ß', '\u{1d11e}', 'x', 'q', 'Z'];

fn map_char(c: char) -> char {
    if c.is_ascii_alphabetic() {
        OTHER[(c as usize * 7 + 3) % OTHER.len()]
    } else {
        c
    }
}

fn map_name(n: &str) -> String {
    let mut k = 0;
    loop {
        let mut h = hash64(format!("{}/{}", n, k).as_bytes());
        let mut r = String::new();
        for i in 0..n.len() {
            let set: &[u8] = if i == 0 { b"abcdefghijklmnopqrstuvwxyzABCXYZ_" } else { b"abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789" };
            r.push(set[(h % set.len() as u64) as usize] as char);
            h = h / set.len() as u64 ^ (h << 40);
        }
        if !is_kw(&r) {
            return r;
        }
        k += 1;
    }
}

/// the program with other names and texts of the same width
fn renamed(p: &sut::Parsed) -> String {
    let mut r = String::new();
    let mut at = p.lx.shebang.as_ref().map(|s| s.len()).unwrap_or(0);
    r.push_str(&p.src[..at]);
    for t in &p.lx.toks {
        r.extend(p.src[at..t.start].chars().map(map_char));
        match t.k {
            K::Name => r.push_str(&map_name(&t.s)),
            K::Str if !t.s.replace("\\'", "").replace("\\\"", "").contains('\\') => r.extend(t.s.chars().map(map_char)),
            K::LongStr => r.extend(t.s.chars().map(map_char)),
            _ => r.push_str(&t.s),
        }
        at = t.end;
    }
    r.extend(p.src[at..].chars().map(map_char));
    r
}

fn names(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 12, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    if s.chance(1, 4) {
        super::text::gen_range(s, &mut cfg, &p.src);
    }
    tame(ctx, &p, &mut cfg);
    ctx.desc = show(&p.src, &cfg);
    features(ctx, &p);
    let src2 = renamed(&p);
    if sut::parse(&src2).is_err() {
        panic!("renaming made an invalid program: {:?}", src2);
    }
    let out = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    let q = match sut::parse(&out) {
        Ok(q) => q,
        Err(_) => return Skip("output is not a valid program (see the property about tokens)"),
    };
    let want = renamed(&q);
    let got = match fmt(ctx, &src2, &cfg.config()) {
        Out::Ok(o) => o,
        o => return Fail(format!("with other names and texts {:?}: {:?}", src2, o)),
    };
    if got != want {
        return Fail(format!("source with other names and texts: {:?}\nexpected {:?}\ngot      {:?}", src2, want, got));
    }
    Pass(p.lx.toks.len() >= 5 && !src2.is_ascii() && out != p.src)
}

// ---------------------------------------------------------------------------------------------------------------

/// no comments before the first and after the last token
fn trimmed(s: &mut Src, o: &Opts) -> sut::Parsed {
    let mut g = gen::gen_prog(s, o);
    g.shebang = None;
    for k in [0, g.gaps.len() - 1] {
        g.gaps[k].retain(|x| matches!(x, gen::Piece::Ws(_)));
    }
    let src = g.render();
    sut::parse(&src).unwrap_or_else(|e| panic!("generator made an invalid program ({}): {:?}", e, src))
}

fn independent(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let wrap = s.chance(1, 3);
    let o = Opts { comments: if wrap { 0 } else { 6 }, stats: 3, shebang: false, multiline_tokens: !wrap, long_strings: !wrap, ..Opts::default() };
    let a = trimmed(s, &Opts { no: &[Sk::Return], ..o.clone() });
    let b = trimmed(s, &o);
    let mut cfg = cfggen::gen_raw(s);
    for k in ["remove_spaces_between_tokens", "remove_all_newlines", "replace_zero_spaces_with_hint"] {
        cfg.set(k, "true");
    }
    // any value means one line break
    let n = s.range(1, 3);
    cfg.set("newline_format_statement", &n.to_string());
    cfg.unset("write_newline_at_eof");
    tame(ctx, &a, &mut cfg);
    tame(ctx, &b, &mut cfg);
    if a.lx.toks.is_empty() || b.lx.toks.is_empty() || b.lx.toks[0].s == "(" {
        return Skip("nothing to put together");
    }
    if wrap {
        return wrapped(s, ctx, &a, cfg);
    }
    let both = format!("{}\n{}", a.src, b.src);
    ctx.desc = show(&both, &cfg);
    let whole = match sut::parse(&both) {
        Ok(p) => p,
        Err(_) => return Skip("not valid together"),
    };
    features(ctx, &whole);
    let fa = ok_or_judge!(fmt(ctx, &a.src, &cfg.config()));
    let fb = ok_or_judge!(fmt(ctx, &b.src, &cfg.config()));
    let got = ok_or_judge!(fmt(ctx, &both, &cfg.config()));
    let want = format!("{}\n{}", fa, fb);
    if got != want {
        return Fail(format!("first: {:?} gives {:?}\nsecond: {:?} gives {:?}\ntogether: {:?}", a.src, fa, b.src, fb, got));
    }
    Pass(a.lx.toks.len() >= 4 && b.lx.toks.len() >= 4)
}

/// statements inside of a block are formatted like outside, one level further in
fn wrapped(s: &mut Src, ctx: &mut Ctx, a: &sut::Parsed, mut cfg: Cfg) -> Outcome {
    const BLOCKS: &[(&str, &str, &str)] = &[
        ("do", "end", "newline_format_do_end"),
        ("while x do", "end", "newline_format_while"),
        ("repeat", "until x", "newline_format_repeat_until"),
        ("for i = 1, 2 do", "end", "newline_format_for"),
        ("for i in y do", "end", "newline_format_for"),
        ("if x then", "end", "newline_format_if"),
        ("if x then y() else", "end", "newline_format_if"),
        ("if x then y() elseif z then", "end", "newline_format_if"),
        ("function f()", "end", "newline_format_function"),
        ("local function f()", "end", "newline_format_function"),
    ];
    let (head, end, opt) = BLOCKS[s.below(BLOCKS.len())];
    // the width that is left and the nesting level of functions differ inside
    cfg.0.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"));
    cfg.set(opt, "1");
    // an empty line stays empty only without indentation
    cfg.set("newline_format_statement", "1");
    let ind = cfg.get("indentation_string").unwrap_or("").to_string();
    let src = format!("{} {}\n{}", head, a.src, end);
    ctx.desc = show(&src, &cfg);
    let whole = match sut::parse(&src) {
        Ok(p) => p,
        Err(_) => return Skip("not valid together"),
    };
    features(ctx, &whole);
    let fa = ok_or_judge!(fmt(ctx, &a.src, &cfg.config()));
    let fb = ok_or_judge!(fmt(ctx, &format!("{} x() {}", head, end), &cfg.config()));
    let got = ok_or_judge!(fmt(ctx, &src, &cfg.config()));
    let inner: String = fa.split('\n').map(|l| if l.is_empty() { String::new() } else { format!("{}{}", ind, l) }).collect::<Vec<_>>().join("\n");
    let call = format!("\n{}x()\n", ind);
    if fb.matches(&call).count() != 1 {
        return Fail(format!("the block around a call gives {:?}", fb));
    }
    let want = fb.replace(&call, &format!("\n{}\n", inner));
    // blank lines may be indented or not
    let norm = |t: &str| t.split('\n').map(|l| if l.trim_matches(|c| c == ' ' || c == '\t').is_empty() { "" } else { l }).collect::<Vec<_>>().join("\n");
    if norm(&got) != norm(&want) {
        return Fail(format!("outside: {:?} gives {:?}\nexpected {:?}\ngot      {:?}", a.src, fa, want, got));
    }
    Pass(a.lx.toks.len() >= 4)
}

// ---------------------------------------------------------------------------------------------------------------

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// processor time of this thread
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

fn cpu_of(ctx: &mut Ctx, src: &str, cfg: &Cfg, times: usize) -> Result<f64, Out> {
    let c = cfg.config();
    let mut best = f64::MAX;
    for _ in 0..times {
        let t = cpu();
        let o = fmt(ctx, src, &c);
        best = best.min(cpu() - t);
        if !matches!(o, Out::Ok(_)) {
            return Err(o);
        }
    }
    Ok(best)
}

/// sixteen times as much may take this many times as long
const LIMIT: f64 = 80.0;

/// a construct and how to repeat it
fn repeated(s: &mut Src, ctx: &mut Ctx) -> Option<(&'static str, Box<dyn Fn(usize) -> String>, usize)> {
    let small = Opts { stats: 2, block_depth: 2, exp_depth: 2, comments: 10, shebang: false, no: &[Sk::Return, Sk::ParenCall], paren_stats: false, ..Opts::default() };
    let (name, a, x, sep, z): (&'static str, &'static str, String, &'static str, &'static str) = match s.below(28) {
        0 | 1 | 2 => ("statements", "", program(s, &small).src, "\n", ""),
        3 => ("statements in a function", "function f()\n", program(s, &small).src, "\n", "\nend"),
        4 => ("table", "x = {", "a".into(), ", ", "}"),
        5 => ("table of tables", "x = {\n", "{a = 1, [2] = {3}}".into(), ",\n", "\n}"),
        6 => ("arguments", "f(", "a + 1".into(), ", ", ")"),
        7 => ("function arguments", "f(", "function() return 1 end".into(), ", ", ")"),
        8 => ("elseif", "if a then b() ", "elseif c then d()".into(), " ", " end"),
        9 => ("comments", "x = 1 ", "--c".into(), "\n", "\ny = 2"),
        10 => ("long comments", "x = 1 ", "--[[c\nd]]".into(), " ", " y = 2"),
        11 => ("semicolons", "", ";".into(), " ", ""),
        12 => ("literal", "x = \"", "a\\n é".into(), "", "\""),
        13 => ("long literal", "x = [[", "text\n".into(), "", "]]"),
        14 => ("method calls", "x", ":m(1)".into(), "", ""),
        15 => ("assignment", "local a = ", "b.c".into(), ", ", ""),
        16 => ("blank lines", "x = 1", "\n".into(), "", "y = 2"),
        17 => ("named fields", "x = {", "a = b".into(), "; ", ";}"),
        18 => ("fields with brackets", "return {", "[1] = '\"'".into(), ", ", "}"),
        19 => ("names", "local ", "a".into(), ", ", ""),
        20 => ("targets", "", "a.b".into(), ", ", " = 1"),
        21 => ("parameters", "function f(", "a".into(), ", ", ") end"),
        22 => ("function name", "function f", ".a".into(), "", "() end"),
        23 => ("members", "x = a", ".b".into(), "", ""),
        24 => ("calls", "x = a", "{1, 2}".into(), "", ""),
        25 => ("statements with brackets", "", "a = 1;(f)(a, b)".into(), "\n", ""),
        26 => ("brackets in a long literal", "x = [==[", "]=]".into(), "", "]==]"),
        _ => ("calls on lines", "", "f(a, b)".into(), "\n", ""),
    };
    ctx.label(name);
    if x.is_empty() {
        return None;
    }
    let len = x.len() + sep.len();
    Some((name, Box::new(move |n| format!("{}{}{}", a, vec![&x[..]; n].join(sep), z)), len))
}

const TIMES: usize = 16;

fn time(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (name, rep, len) = match repeated(s, ctx) {
        Some(x) => x,
        None => return Skip("empty"),
    };
    let mut cfg = if s.chance(1, 2) { Cfg::shipped() } else { cfggen::gen_safe(s) };
    // how much is done with one of them
    let few = rep(8);
    let p = match sut::parse(&few) {
        Ok(p) => p,
        Err(_) => return Skip("not valid together"),
    };
    let mut c = super::cost_with(&p.tree, &cfg) / 8.0;
    if c > 5000.0 {
        cfg.0.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"));
        c = super::cost_with(&p.tree, &cfg) / 8.0;
    }
    if c > 5000.0 {
        cfg.0.retain(|(k, _)| k != "indent_var_suffix" && k != "indent_exp_list");
        c = 1.0;
    }
    let n = (25000 / len).min((100000.0 / c) as usize).clamp(10, 4000);
    let (a, b) = (rep(n), rep(TIMES * n));
    ctx.desc = format!("{}\n({} characters, then {})", show(&few, &cfg), a.chars().count(), b.chars().count());
    let ta = match cpu_of(ctx, &a, &cfg, 3) {
        Ok(t) => t,
        Err(Out::ParseErr(_)) => return Skip("rejected by luafmt (see accepts-valid)"),
        Err(o) => return Fail(format!("{:?}", o)),
    };
    let limit = LIMIT * ta + 0.05;
    let mut tb = f64::MAX;
    for _ in 0..4 {
        tb = tb.min(match cpu_of(ctx, &b, &cfg, 1) {
            Ok(t) => t,
            Err(o) => return Fail(format!("with 16 times the input: {}", format!("{:?}", o).chars().take(300).collect::<String>())),
        });
        if tb <= limit {
            if std::env::var("VERIF_RATIO").is_ok() {
                eprintln!("ratio {:6.1} {:.3} {:.3} {}", tb / ta, ta, tb, name);
            }
            return Pass(b.len() > 50000);
        }
    }
    Fail(format!("{}: {:.3} s of processor time for {} characters, {:.3} s for {} characters", name, ta, a.chars().count(), tb, b.chars().count()))
}

/// known finding: nested tables and calls take exponential time
fn nested_is_slow(src: &str) -> bool {
    let cfg = Cfg::shipped();
    let open = src.chars().take_while(|c| *c != '{').count();
    let depth = src.matches('{').count();
    let nest = |n: usize| format!("{}{}{}{}", &src[..open], "{".repeat(n), "1", "}".repeat(n));
    let mut ctx = Ctx::default();
    let a = cpu_of(&mut ctx, &nest(depth / 2), &cfg, 3).unwrap_or(f64::MAX);
    let b = cpu_of(&mut ctx, &nest(depth), &cfg, 1).unwrap_or(0.0);
    b > 12.0 * a
}
