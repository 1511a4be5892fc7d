//! Robustness: no crash on any input, invalid programs are rejected, formatting twice changes nothing, the layout does
//! not depend on the whitespace of the input.

use super::text::{features, program, show, FIXED};
use super::{cost, fixed_pairs, tame, Pair, Prop};
use crate::cfggen::{self, Cfg, Ty};
use crate::engine::{Ctx, Outcome, Src};
use crate::gen::{self, Opts};
use crate::lualex;
use crate::luaparse;
use crate::sut::{self, fmt, Out};

use Outcome::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            name: "no-crash",
            f: no_crash,
            fixed: fixed_pairs(j_no_crash, FIXED).into_iter().chain(fixed_pairs(j_no_crash, FIXED_CRASH)).collect(),
            probe: None,
            quick: 250000,
            thorough: 6000000,
            rule: "arbitrary Unicode text (soup of Lua lexemes, damaged programs, valid programs) x arbitrary configurations (any option, any text, also values outside of the documented ones); every case is formatted twice and must end both times with the same text or the same error; non-trivial: at least 8 characters",
        },
        Prop {
            id: "P07",
            name: "rejects-invalid",
            f: rejects,
            fixed: fixed_pairs(|c, s, cfg| judge_rejects(c, s, cfg), FIXED_INVALID),
            probe: None,
            quick: 250000,
            thorough: 6000000,
            rule: "valid programs with one token deleted, duplicated, replaced, inserted or swapped, or with one malformed lexeme inserted, that the (lenient) reference parser rejects; luafmt must report a parsing error and give no text; non-trivial: at least 4 tokens",
        },
        Prop {
            id: "P28",
            name: "error-places",
            f: error_place,
            fixed: fixed_pairs(|c, s, cfg| judge_place(c, s, cfg), FIXED_INVALID),
            probe: None,
            quick: 250000,
            thorough: 6000000,
            rule: "invalid programs (soup of lexemes, damaged programs, programs with a changed token or a malformed lexeme); the parsing error must name the first token (or symbol) the reference parser cannot go on with and its place in characters; non-trivial: the error is not at the first token",
        },
        Prop {
            id: "P08",
            name: "idempotence",
            f: idempotence,
            fixed: vec![],
            probe: None,
            quick: 130000,
            thorough: 2000000,
            rule: "programs x whitespace-normalising configurations; the output is formatted again and must come back unchanged; non-trivial: at least 5 tokens and the first pass changed the text",
        },
        Prop {
            id: "P09",
            name: "whitespace-insensitive",
            f: ws_insensitive,
            fixed: vec![],
            probe: None,
            quick: 180000,
            thorough: 2500000,
            rule: "the same token sequence with two different, generated whitespace layouts x whitespace-normalising configurations; the outputs must be equal; non-trivial: at least 5 tokens and different inputs",
        },
    ]
}

const FIXED_CRASH: &[Pair] = &[
    ("x = {1, 2, 3}", &[("max_width", "18446744073709551615"), ("force_single_line_table", "true")]),
    ("f(1)", &[("max_width", "9223372036854775808"), ("force_single_line_exp_list", "true"), ("newline_format_exp_list", "1")]),
    ("x = 1 --[", &[("line_range", "5:2")]),
    ("--[[]]--[[a]]", &[("hint_after_multiline_comment", "é")]),
    ("do\n--[[]] x = 1 end", &[("indentation_string", "\u{3000}"), ("newline_format_do_end", "1")]),
    ("--Привет\n\n--é\nx = '日本'\n", &[("line_range", "2:3")]),
];

const FIXED_INVALID: &[Pair] = &[("x = 1 y", &[]), ("x = [[a", &[]), ("--[[ a", &[]), ("x = 'a", &[]), ("x = ~", &[]), ("@", &[]), ("end", &[])];

// ---------------------------------------------------------------------------------------------------------------

const SOUP: &[&str] = &[
    "a", "b1", "1", "0x", "0x1", "1e", "1e+", "1e5", ".", "..", "...", ":", "::", "'", "\"", "'a'", "\"b\"", "[[", "]]", "[=[", "]=]", "[", "]", "--", "--[[",
    "--[=[", "--[", "--[=", "\n", " ", "\t", "\r", "\u{b}", "\u{c}", "\u{0}", "\\", "{", "}", "(", ")", "=", "==", "~=", "~", "<", "<=", "<<", ">>", "//", "-", "#",
    "#!", "#!x\n", "function", "end", "if", "then", "else", "elseif", "while", "do", "for", "in", "repeat", "until", "return", "break", "goto", "local",
    "nil", "not", "and", "or", ",", ";", "é", "日", "🙂", "\u{feff}", "\u{a0}", "\u{2028}", "$", "@", "!", "?", "x = 1\n", "f()", "{a = 1}", "function() end",
];

fn weird_cfg(s: &mut Src) -> Cfg {
    let mut c = cfggen::gen_raw(s);
    s.stream(2, |s| {
        for _ in 0..s.weighted(&[3, 2, 2, 1]) {
            let (n, ty) = s.pick_c(cfggen::OPTIONS);
            let v = match s.weighted(&[3, 3, 2]) {
                0 => s.pick(&["", "--", "x", "é", "\n", "=", "true", "1", "[[", "'", "\u{0}", "--[["]).to_string(),
                1 => s.pick(&["0", "1", "-1", "18446744073709551615", "99999999999999999999999", "9223372036854775808", "1.5", " 1", "١"]).to_string(),
                _ => cfggen::gen_value(s, ty),
            };
            if !(ty == Ty::Width && v == "0" && false) {
                c.set(n, &v);
            }
        }
        if s.chance(1, 4) {
            let r = s.pick(&["1:1", "2:3", "0:0", "3:1", "1:", ":1", "0:99999", "18446744073709551615:1", "99999999999999999999:1", "2:2", "4:7", "x"]).to_string();
            c.set("line_range", &r);
        }
    });
    c
}

/// lexeme soup, a damaged program or a valid one
fn any_text(s: &mut Src, ctx: &mut Ctx) -> String {
    let small = Opts { stats: 3, block_depth: 2, exp_depth: 2, comments: 15, ..Opts::default() };
    match s.weighted(&[3, 3, 2]) {
        0 => {
            ctx.label("lexeme soup");
            let n = s.range(0, 25);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(s.pick(SOUP));
                if s.chance(1, 3) {
                    t.push(' ');
                }
            }
            t
        }
        1 => {
            ctx.label("damaged program");
            let mut cs: Vec<char> = program(s, &small).src.chars().collect();
            for _ in 0..1 + s.below(3) {
                if cs.is_empty() {
                    break;
                }
                let i = s.below(cs.len());
                match s.below(4) {
                    0 => {
                        let e = (i + 1 + s.below(4)).min(cs.len());
                        cs.drain(i..e);
                    }
                    1 => {
                        let t: Vec<char> = s.pick(SOUP).chars().collect();
                        cs.splice(i..i, t);
                    }
                    2 => cs.truncate(i),
                    _ => {
                        let j = s.below(cs.len());
                        cs.swap(i, j);
                    }
                }
            }
            cs.into_iter().collect()
        }
        _ => {
            ctx.label("valid program");
            program(s, &small).src
        }
    }
}

fn no_crash(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let src = any_text(s, ctx);
    let mut cfg = weird_cfg(s);
    if let Ok(p) = sut::parse(&src) {
        tame(ctx, &p, &mut cfg);
    }
    j_no_crash(ctx, &src, &cfg)
}

fn j_no_crash(ctx: &mut Ctx, src: &str, cfg: &Cfg) -> Outcome {
    ctx.desc = show(src, cfg);
    let c = match sut::guarded(|| cfg.config()) {
        Ok(c) => c,
        Err(e) => return Fail(format!("panic while the options are set: {}", e)),
    };
    let a = fmt(ctx, src, &c);
    match &a {
        Out::Ok(_) => ctx.label("formatted"),
        Out::ParseErr(_) => ctx.label("rejected"),
        Out::FmtErr(e) => return Fail(format!("formatting error: {}", e)),
        Out::Panic(e) => return Fail(format!("panic: {}", e)),
    }
    let b = fmt(ctx, src, &c);
    if a != b {
        return Fail(format!("two runs differ:\n{:?}\n{:?}", a, b));
    }
    Pass(src.chars().count() >= 8)
}

// ---------------------------------------------------------------------------------------------------------------

const BAD_LEXEMES: &[&str] = &["@", "$", "!", "?", "`", "\\", "é", "\u{a0}", "日本", "'abc", "\"abc", "[[abc", "[==[abc", "--[[abc", "--[=[abc]]", "\u{0}", "\u{7f}"];
const ALL_TOKENS: &[&str] = &[
    "a", "1", "'s'", "[[l]]", "nil", "true", "and", "break", "do", "else", "elseif", "end", "for", "function", "goto", "if", "in", "local", "not", "or", "repeat",
    "return", "then", "until", "while", "+", "-", "*", "/", "//", "%", "^", "#", "&", "~", "|", "<<", ">>", "==", "~=", "<=", ">=", "<", ">", "=", "(", ")",
    "{", "}", "[", "]", "::", ";", ":", ",", ".", "..", "...",
];

fn rejects(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let src = match mutated(s, ctx) {
        Some(x) => x,
        None => return Skip("empty program"),
    };
    let cfg = cfggen::gen_safe(s);
    judge_rejects(ctx, &src, &cfg)
}

/// a program with one token changed or one malformed lexeme
fn mutated(s: &mut Src, ctx: &mut Ctx) -> Option<String> {
    let o = Opts { stats: 3, comments: 5, ..Opts::default() };
    let (mut toks, starts) = gen::gen_tokens(s, &o);
    let n = toks.len();
    let kind = s.below(6);
    if n == 0 && kind < 4 {
        return None;
    }
    match kind {
        0 => {
            ctx.label("token deleted");
            toks.remove(s.below(n));
        }
        1 => {
            ctx.label("token duplicated");
            let i = s.below(n);
            let t = toks[i].clone();
            toks.insert(i, t);
        }
        2 => {
            ctx.label("token replaced");
            let i = s.below(n);
            toks[i] = s.pick(ALL_TOKENS).to_string();
        }
        3 => {
            ctx.label("tokens swapped");
            let (i, j) = (s.below(n), s.below(n));
            toks.swap(i, j);
        }
        4 => {
            ctx.label("token inserted");
            let i = s.below(n + 1);
            toks.insert(i, s.pick(ALL_TOKENS).to_string());
        }
        _ => {
            ctx.label("malformed lexeme");
            let i = s.below(n + 1);
            toks.insert(i, s.pick(BAD_LEXEMES).to_string());
        }
    }
    Some(gen::with_trivia(s, &o, toks, &starts).render())
}

// ---------------------------------------------------------------------------------------------------------------

fn error_place(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let src = if s.chance(1, 3) {
        any_text(s, ctx)
    } else {
        match mutated(s, ctx) {
            Some(x) => x,
            None => return Skip("empty program"),
        }
    };
    let cfg = cfggen::gen_safe(s);
    judge_place(ctx, &src, &cfg)
}

fn judge_place(ctx: &mut Ctx, src: &str, cfg: &Cfg) -> Outcome {
    ctx.desc = show(src, cfg);
    let (lx, bad) = lualex::lex_start(src);
    let late = matches!(&bad, Some((at, _)) if src[..*at].ends_with('#') && src[*at..].starts_with('!'));
    if late || src.starts_with('#') && !src.starts_with("#!") {
        return Skip("#! which does not start the text, or # without !");
    }
    let chars = |b: usize| src[..b].chars().count();
    let stuck = luaparse::stuck_at(&lx.toks);
    if let Some((at, e)) = &bad {
        if e.contains("malformed number") && stuck.map(|k| k >= lx.toks.len()).unwrap_or(true) {
            return Skip("malformed number (luafmt reads some of them as numbers or several tokens)");
        }
        debug_assert!(*at <= src.len());
    }
    let last = stuck.unwrap_or(lx.toks.len()).min(lx.toks.len());
    if lx.toks[..(last + 1).min(lx.toks.len())].iter().any(|t| t.k == lualex::K::Num && t.s.starts_with("0") && t.s.contains(['x', 'X']) && t.s.contains('.')) {
        return Skip("hexadecimal fraction (known finding)");
    }
    if lx.toks[..(last + 1).min(lx.toks.len())].iter().any(|t| t.s == "[" && src[t.end..].starts_with('=')) {
        return Skip("[= is no token");
    }
    // what the message has to say
    let want: Vec<String> = match (stuck, &bad) {
        (Some(k), _) if k < lx.toks.len() => {
            let t = &lx.toks[k];
            ctx.label("token");
            vec![format!(" found at {}:{}", chars(t.start), chars(t.end)), t.s.clone()]
        }
        (_, Some((at, e))) if e.contains("symbol") => {
            ctx.label("symbol");
            vec![format!("unrecognized symbol '{}' at {}", src[*at..].chars().next().unwrap(), chars(*at))]
        }
        (_, Some(_)) => {
            ctx.label("unfinished string or comment");
            vec!["unexpected end of file".to_string()]
        }
        (Some(_), None) => {
            ctx.label("end of file");
            vec![format!("`<EOF>` found at {}:{}", chars(src.len()), chars(src.len()))]
        }
        (None, None) => return Skip("valid"),
    };
    match fmt(ctx, src, &cfg.config()) {
        Out::ParseErr(e) => {
            let first = e.split("\nExpected").next().unwrap_or("");
            match want.iter().find(|w| !first.contains(&w[..])) {
                None => Pass(last > 0),
                Some(w) => Fail(format!("the message does not say {:?}:\n{}", w, e)),
            }
        }
        Out::Ok(o) => Fail(format!("an invalid program is accepted and formatted to {:?}", o)),
        Out::FmtErr(e) => Fail(format!("formatting error instead of a parsing error: {}", e)),
        Out::Panic(e) => Fail(format!("panic: {}", e)),
    }
}

fn judge_rejects(ctx: &mut Ctx, src: &str, cfg: &Cfg) -> Outcome {
    ctx.desc = show(src, cfg);
    // what luafmt lets through on purpose or by design of its lexer is not claimed to be rejected
    let lx = match lualex::lex_mode(src, true) {
        Ok(lx) => Some(lx),
        Err(e) => {
            if e.contains("malformed number") {
                return Skip("malformed number (luafmt reads some of them as numbers or several tokens)");
            }
            None
        }
    };
    let n = match lx {
        Some(lx) => {
            if luaparse::parse(&lx.toks, true).is_ok() {
                return Skip("still valid (by the lenient reference)");
            }
            lx.toks.len()
        }
        None => {
            ctx.label("lexically invalid");
            4
        }
    };
    match fmt(ctx, src, &cfg.config()) {
        Out::ParseErr(e) if !e.is_empty() => Pass(n >= 4),
        Out::ParseErr(_) => Fail("the error message is empty".into()),
        Out::Ok(o) => Fail(format!("an invalid program is accepted and formatted to {:?}", o)),
        Out::FmtErr(e) => Fail(format!("formatting error instead of a parsing error: {}", e)),
        Out::Panic(e) => Fail(format!("panic: {}", e)),
    }
}

// ---------------------------------------------------------------------------------------------------------------

const KEEP: &[&str] = &[
    "indentation_string", "field_separator", "write_trailing_field_separator", "convert_charstring_to_normalstring", "write_newline_at_eof",
    "hint_before_oneline_comment_text", "hint_before_multiline_comment_text", "hint_after_multiline_comment_text", "hint_table_constructor",
    "hint_before_comment", "hint_after_multiline_comment", "indent_var_suffix", "indent_exp_list", "indent_one_line_var_suffix", "indent_one_line_exp_list",
];

/// Configurations that replace all the whitespace of the input by their own. With a width limit the result may depend
/// on the length of the source text where that is at least twice the limit (luafmt does not try to put longer
/// constructs on one line), so the callers leave those cases out.
fn normalising(s: &mut Src) -> (Cfg, bool) {
    let comments = false;
    let cfg = match s.stream(2, |s| s.weighted(&[3, 2])) {
        0 => {
            let mut c = cfggen::gen_raw(s);
            for k in ["remove_spaces_between_tokens", "remove_all_newlines", "replace_zero_spaces_with_hint"] {
                c.set(k, "true");
            }
            c
        }
        _ => {
            let mut c = Cfg::shipped();
            s.stream(2, |s| {
                for k in KEEP {
                    if s.chance(1, 4) {
                        let ty = cfggen::OPTIONS.iter().find(|(n, _)| n == k).unwrap().1;
                        let v = cfggen::gen_value(s, ty);
                        c.set(k, &v);
                    }
                }
            });
            c
        }
    };
    (cfg, comments)
}

fn width(s: &mut Src, cfg: &mut Cfg) {
    s.stream(2, |s| match s.weighted(&[3, 2, 5]) {
        0 => cfg.unset("max_width"),
        1 => cfg.set("max_width", "1000000"),
        _ => {
            let w = s.range(8, 150);
            cfg.set("max_width", &w.to_string())
        }
    });
}

fn fits(src: &str, cfg: &Cfg) -> bool {
    match cfg.get("max_width").and_then(|w| w.parse::<usize>().ok()) {
        Some(w) => src.chars().count() < w.saturating_mul(2),
        None => true,
    }
}

fn idempotence(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let small = s.chance(1, 2);
    let with_comments = s.chance(1, 4);
    let mut o = Opts { cr: false, comments: 0, ..Opts::default() };
    if small {
        o = Opts { stats: 2, exp_depth: 2, block_depth: 2, ..o };
    }
    let mut cfg;
    if with_comments {
        // with comments only for the shipped newline and hint options, without a width limit
        o.comments = 10;
        cfg = Cfg::shipped();
        s.stream(2, |s| {
            for k in ["indentation_string", "field_separator", "convert_charstring_to_normalstring", "write_newline_at_eof"] {
                if s.chance(1, 3) {
                    let ty = cfggen::OPTIONS.iter().find(|(n, _)| *n == k).unwrap().1;
                    let v = cfggen::gen_value(s, ty);
                    cfg.set(k, &v);
                }
            }
        });
        cfg.unset("max_width");
        cfg.0.retain(|(k, _)| !k.starts_with("force_single_line"));
    } else {
        cfg = normalising(s).0;
        width(s, &mut cfg);
    }
    let p = program(s, &o);
    tame(ctx, &p, &mut cfg);
    ctx.desc = show(&p.src, &cfg);
    features(ctx, &p);
    let c = cfg.config();
    let a = super::text::ok_or_judge!(fmt(ctx, &p.src, &c));
    if !fits(&p.src, &cfg) || !fits(&a, &cfg) {
        return Skip("text longer than twice the width limit");
    }
    let b = match fmt(ctx, &a, &c) {
        Out::Ok(o) => o,
        o => return Fail(format!("formatting the output {:?} again: {:?}", a, o)),
    };
    if a != b {
        return Fail(format!("formatting the output again changed it\nonce:  {:?}\ntwice: {:?}", a, b));
    }
    Pass(p.lx.toks.len() >= 5 && a != p.src)
}

fn ws_insensitive(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Opts { cr: true, comments: 0, ..Opts::default() };
    if s.chance(1, 2) {
        o = Opts { stats: 2, exp_depth: 2, block_depth: 2, ..o };
    }
    let mut cfg = cfggen::gen_raw(s);
    for k in ["remove_spaces_between_tokens", "remove_all_newlines", "replace_zero_spaces_with_hint"] {
        cfg.set(k, "true");
    }
    width(s, &mut cfg);
    let (toks, starts) = gen::gen_tokens(s, &o);
    let mut g1 = gen::with_trivia(s, &o, toks.clone(), &starts);
    let mut g2 = gen::with_trivia(s, &o, toks, &starts);
    // carriage returns in strings would change the tokens
    g1.crlf = 0;
    g2.crlf = 0;
    g1.shebang = None;
    g2.shebang = None;
    let (a, b) = (g1.render(), g2.render());
    let p = sut::parse(&a).expect("generated program");
    tame(ctx, &p, &mut cfg);
    ctx.desc = format!("{}\nand:    {:?}", show(&a, &cfg), b);
    features(ctx, &p);
    if !fits(&a, &cfg) || !fits(&b, &cfg) {
        return Skip("text longer than twice the width limit");
    }
    let c = cfg.config();
    let x = super::text::ok_or_judge!(fmt(ctx, &a, &c));
    let y = match fmt(ctx, &b, &c) {
        Out::Ok(o) => o,
        o => return Fail(format!("one layout is formatted, the other gives {:?}", o)),
    };
    if x != y {
        return Fail(format!("the same tokens with other whitespace are formatted differently\n{:?}\n{:?}", x, y));
    }
    Pass(p.lx.toks.len() >= 5 && a != b)
}
