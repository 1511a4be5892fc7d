//! Properties about what formatting does to the program text: tokens, comments, identity, idempotence, acceptance.

use super::{fixed_pairs, tame, Pair, Prop};
use crate::cfggen::{self, Cfg};
use crate::engine::{Ctx, Outcome, Src};
use crate::gen::{self, Opts};
use crate::lualex::Comment;
use crate::sut::{self, canonical_tokens, first_diff, fmt, Out, Parsed};

use Outcome::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            name: "tokens-preserved",
            f: tokens,
            fixed: fixed_pairs(j_tokens, FIXED),
            probe: None,
            quick: 180000,
            thorough: 3000000,
            rule: "grammar-generated Lua 5.3 programs with arbitrary trivia x generated configurations (in a fifth of them with line_range); non-trivial: at least 5 tokens and the output differs from the input",
        },
        Prop {
            id: "P02",
            name: "comments-preserved",
            f: comments,
            fixed: fixed_pairs(j_comments, FIXED),
            probe: None,
            quick: 180000,
            thorough: 3000000,
            rule: "programs rich in comments x configurations without remove_comments; non-trivial: at least 2 comments and the output differs from the input",
        },
        Prop {
            id: "P03",
            name: "remove-comments",
            f: remove_comments,
            fixed: fixed_pairs(j_remove_comments, FIXED_REMOVE),
            probe: None,
            quick: 120000,
            thorough: 3000000,
            rule: "programs rich in comments x configurations with remove_comments; non-trivial: at least 2 comments",
        },
        Prop {
            id: "P04",
            name: "empty-config-identity",
            f: identity,
            fixed: fixed_pairs(|c, s, _| j_identity(c, s), FIXED),
            probe: None,
            quick: 400000,
            thorough: 10000000,
            rule: "programs with arbitrary trivia, no option set; non-trivial: at least 5 tokens",
        },
        Prop {
            id: "P05",
            name: "accepts-valid",
            f: accepts,
            fixed: fixed_pairs(j_accepts, FIXED),
            probe: Some(|src| {
                !matches!(fmt(&mut Ctx::default(), src, &Cfg::default().config()), Out::Ok(_))
            }),
            quick: 120000,
            thorough: 3000000,
            rule: "valid programs (known rejected forms left out by construction) x configurations; non-trivial: at least 5 tokens",
        },
    ]
}

/// inputs of the defects repaired so far
pub const FIXED: &[Pair] = &[
    ("x = 1e+5 y = 2.5E+10", &[]),
    ("x = 0XAB y = 0xA8p1 z = 0X1P-4", &[]),
    ("x = [[a\\]] y = 1 --[[ c\\]] z = 2", &[]),
    ("x = [=[\\]=] --[==[\\]==]", &[("remove_spaces_between_tokens", "true"), ("replace_zero_spaces_with_hint", "true")]),
    ("x = 1 --[", &[]),
    ("x = 1 --[==", &[]),
    ("x = 1 --[=text", &[]),
    ("x\u{b}=\u{c}1", &[]),
    ("x = {1}", &[("hint_table_constructor", "  "), ("replace_zero_spaces_with_hint", "true")]),
    ("x = - not #y ^ -2 ^ ~z", &[]),
    ("x = y[ [[k]] ]", &[("remove_spaces_between_tokens", "true"), ("replace_zero_spaces_with_hint", "true")]),
    ("x = {[ [=[k]=] ] = 1}", &[("remove_spaces_between_tokens", "true"), ("replace_zero_spaces_with_hint", "true")]),
    ("x = - --c\n y", &[("hint_before_comment", "")]),
    ("x = 1 - --[[c]] y", &[("hint_before_comment", ""), ("remove_spaces_between_tokens", "true"), ("replace_zero_spaces_with_hint", "true")]),
    ("x = 1 -- [[ c\ny = 2", &[("hint_before_oneline_comment_text", "")]),
    ("x = 1 -- [=[ c\ny = 2 -- ]=]", &[("hint_before_oneline_comment_text", "")]),
    ("x = 1 --[[ c] ]] y = 2", &[("hint_after_multiline_comment_text", "")]),
    ("x = 1 --[=[ c]= ]=] y = 2", &[("hint_after_multiline_comment_text", "")]),
    ("f({a = 1, b = {c = 2}})", &[("max_width", "18446744073709551615"), ("newline_format_table_field", "1"), ("force_single_line_table", "true")]),
    ("if a then return 1 end", &[("force_single_line_if", "true"), ("newline_format_if", "1")]),
    ("f = function() return 1 end", &[("force_single_line_top_level_function", "true"), ("newline_format_function", "1")]),
    ("a = 1 --Привет\n\nlocal b", &[("line_range", "2:2")]),
    ("do end(\na)()local a", &[("line_range", "1:1")]),
    ("x = 1\nreturn {\nf(\n1),\n}", &[("line_range", "2:2")]),
    ("return f(\n1)(\n2), {\n1}", &[("line_range", "2:2")]),
    ("x = {function() return 1 end}", &[("force_single_line_scoped_function", "true"), ("newline_format_function", "1")]),
];

const FIXED_REMOVE: &[Pair] = &[
    ("x = 1 --[", &[("remove_comments", "true"), ("replace_zero_spaces_with_hint", "true")]),
    ("x = 1 --[[ c\\]] y = 2", &[("remove_comments", "true"), ("replace_zero_spaces_with_hint", "true")]),
    ("x = y[--[[c]][[k]]]", &[("remove_comments", "true"), ("replace_zero_spaces_with_hint", "true")]),
    ("x = 1 - --c\n- y", &[("remove_comments", "true"), ("replace_zero_spaces_with_hint", "true")]),
];

pub fn show(src: &str, cfg: &Cfg) -> String {
    format!("config: {}\nsource: {:?}", cfg.show(), src)
}

/// A generated program with its reference parse; the generator only makes valid programs.
pub fn program(s: &mut Src, o: &Opts) -> Parsed {
    let src = gen::gen_prog(s, o).render();
    match sut::parse(&src) {
        Ok(p) => p,
        Err(e) => panic!("generator made an invalid program ({}): {:?}", e, src),
    }
}

macro_rules! ok_or_judge {
    ($e:expr) => {
        match $e {
            Out::Ok(o) => o,
            Out::ParseErr(_) => return Skip("rejected by luafmt (see accepts-valid)"),
            Out::FmtErr(e) => return Fail(format!("formatting error on an accepted program: {}", e)),
            Out::Panic(e) => return Fail(format!("panic: {}", e)),
        }
    };
}
pub(crate) use ok_or_judge;

pub fn features(ctx: &mut Ctx, p: &Parsed) {
    use crate::luaparse::Kd::*;
    p.tree.walk(&mut |n| match n.k {
        Table => ctx.label("table"),
        FuncExpr => ctx.label("function expression"),
        Func | LocalFunc => ctx.label("function statement"),
        If => ctx.label("if"),
        While | Repeat | ForIn | ForNum => ctx.label("loop"),
        Bin => ctx.label("binary op"),
        Suffixed => ctx.label("suffixes"),
        Return => ctx.label("return"),
        _ => {}
    });
    if !p.lx.comments.is_empty() {
        ctx.label("comment");
    }
    if p.lx.shebang.is_some() {
        ctx.label("shebang");
    }
    if p.src.contains('\r') {
        ctx.label("CR");
    }
    if !p.src.is_ascii() {
        ctx.label("non-ASCII");
    }
    sizes(ctx, p);
}

/// the sizes met, in powers of two
fn sizes(ctx: &mut Ctx, p: &Parsed) {
    use crate::luaparse::{Kd::*, N};
    let (mut list, mut block, mut suffix, mut params) = (0, 0, 0, 0);
    p.tree.walk(&mut |n| match n.k {
        Table | ExpList | VarList | NameList => list = list.max(n.c.len()),
        ParList => params = params.max(n.c.len()),
        Block => block = block.max(n.c.len()),
        Suffixed => suffix = suffix.max(n.c.len()),
        _ => {}
    });
    fn depth(n: &N, of: fn(crate::luaparse::Kd) -> bool) -> usize {
        of(n.k) as usize + n.c.iter().map(|c| depth(c, of)).max().unwrap_or(0)
    }
    let len = |k: fn(crate::lualex::K) -> bool| p.lx.toks.iter().filter(|t| k(t.k)).map(|t| t.s.chars().count()).max().unwrap_or(0);
    let mut gaps = std::collections::HashMap::new();
    for c in &p.lx.comments {
        *gaps.entry(c.gap).or_insert(0) += 1;
    }
    use crate::lualex::K;
    for (what, n) in [
        ("items of a list", list),
        ("parameters", params),
        ("statements of a block", block),
        ("suffixes", suffix),
        ("nested blocks", depth(&p.tree, |k| k == Block)),
        ("nested tables", depth(&p.tree, |k| k == Table)),
        ("nested operators", depth(&p.tree, |k| matches!(k, Bin | Un))),
        ("nested calls", depth(&p.tree, |k| matches!(k, Args | ArgTable))),
        ("characters of a name", len(|k| k == K::Name)),
        ("characters of a numeral", len(|k| k == K::Num)),
        ("characters of a string", len(|k| matches!(k, K::Str | K::LongStr))),
        ("characters of a comment", p.lx.comments.iter().map(|c| c.text.chars().count()).max().unwrap_or(0)),
        ("comments in a row", gaps.values().copied().max().unwrap_or(0)),
        ("characters of a line", p.src.lines().map(|l| l.chars().count()).max().unwrap_or(0)),
        ("lines", p.src.lines().count()),
        ("characters", p.src.chars().count()),
    ] {
        ctx.sizes.push((what, n));
    }
}

pub fn reparse(out: &str) -> Result<Parsed, Outcome> {
    sut::parse(out).map_err(|e| Fail(format!("output is not a valid program ({}): {:?}", e, out)))
}

fn tokens(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts::default());
    let mut cfg = cfggen::gen_safe(s);
    if s.chance(1, 5) {
        gen_range(s, &mut cfg, &p.src);
        ctx.label("line_range");
    }
    tame(ctx, &p, &mut cfg);
    judge_tokens(ctx, &p, &cfg)
}

pub fn gen_range(s: &mut Src, cfg: &mut Cfg, src: &str) {
    let lines = src.matches('\n').count() + 1;
    let a = s.range(1, lines + 1);
    let b = s.range(a, lines + 2);
    cfg.set("line_range", &format!("{}:{}", a, b));
}

fn fixed_program(src: &str) -> Parsed {
    sut::parse(src).unwrap_or_else(|e| panic!("fixed input is invalid ({}): {:?}", e, src))
}

fn j_tokens(ctx: &mut Ctx, src: &str, cfg: &Cfg) -> Outcome {
    judge_tokens(ctx, &fixed_program(src), cfg)
}

fn judge_tokens(ctx: &mut Ctx, p: &Parsed, cfg: &Cfg) -> Outcome {
    ctx.desc = show(&p.src, cfg);
    features(ctx, p);
    let out = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    let q = match reparse(&out) {
        Ok(q) => q,
        Err(o) => return o,
    };
    if p.lx.shebang != q.lx.shebang {
        return Fail(format!("shebang line {:?} became {:?}; output {:?}", p.lx.shebang, q.lx.shebang, out));
    }
    let vals = cfg.on("convert_charstring_to_normalstring");
    let a = canonical_tokens(p, vals);
    let b = canonical_tokens(&q, vals);
    if a != b {
        return Fail(format!("{}; output {:?}", first_diff(&a, &b), out));
    }
    if out != p.src {
        ctx.label("output differs from input");
    }
    Pass(a.len() >= 5 && out != p.src)
}

/// token index with the dropped tokens (trailing field separators) not counted
fn gap_map(p: &Parsed) -> Vec<usize> {
    use crate::luaparse::Kd;
    let n = p.lx.toks.len();
    let mut drop = vec![false; n];
    p.tree.walk(&mut |x| {
        if x.k == Kd::Table {
            let inner = &x.m[1..x.m.len() - 1];
            if inner.len() == x.c.len() && !inner.is_empty() {
                drop[*inner.last().unwrap()] = true;
            }
        }
    });
    let mut out = vec![];
    let mut k = 0;
    for i in 0..n {
        out.push(k);
        if !drop[i] {
            k += 1;
        }
    }
    out.push(k);
    out
}

fn comments(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 25, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    cfg.unset("remove_comments");
    if s.chance(1, 4) {
        cfg.set("remove_comments", "false");
    }
    tame(ctx, &p, &mut cfg);
    judge_comments(ctx, &p, &cfg)
}

fn j_comments(ctx: &mut Ctx, src: &str, cfg: &Cfg) -> Outcome {
    judge_comments(ctx, &fixed_program(src), cfg)
}

/// The text a comment must have after formatting: unchanged, except that a hint for its start or end replaces the
/// space there. A space is kept where the comment would otherwise become a comment of the other kind or end early.
pub fn expected_text(c: &Comment, cfg: &Cfg) -> String {
    let (pre, post) = match c.level {
        None => (cfg.get("hint_before_oneline_comment_text"), None),
        Some(_) => (cfg.get("hint_before_multiline_comment_text"), cfg.get("hint_after_multiline_comment_text")),
    };
    let mut x = c.text.clone();
    if pre.is_some() {
        x = x.trim_start().to_string();
    }
    if post.is_some() {
        x = x.trim_end().to_string();
    }
    let empty = x.is_empty();
    if let Some(h) = pre {
        if !empty || c.level.is_some() {
            x = format!("{}{}", h, x);
        }
    }
    if let Some(h) = post {
        x.push_str(h);
    }
    match c.level {
        None => {
            if let (Some(r), Some(_)) = (x.strip_prefix('['), pre) {
                if r.trim_start_matches('=').starts_with('[') {
                    x.insert(0, ' ');
                }
            }
        }
        Some(l) => {
            if post.is_some() && x.ends_with(&format!("]{}", "=".repeat(l))) {
                x.push(' ');
            }
        }
    }
    x
}

fn judge_comments(ctx: &mut Ctx, p: &Parsed, cfg: &Cfg) -> Outcome {
    ctx.desc = show(&p.src, cfg);
    features(ctx, p);
    let out = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    let q = match reparse(&out) {
        Ok(q) => q,
        Err(o) => return o,
    };
    let (pm, qm) = (gap_map(p), gap_map(&q));
    let key = |c: &Comment, m: &Vec<usize>, t: &str| -> String { format!("gap {} level {:?} text {:?}", m[c.gap], c.level, t) };
    let a: Vec<String> = p.lx.comments.iter().map(|c| key(c, &pm, &expected_text(c, cfg))).collect();
    let b: Vec<String> = q.lx.comments.iter().map(|c| key(c, &qm, &c.text)).collect();
    if a != b {
        return Fail(format!("comments: {}; output {:?}", first_diff(&a, &b), out));
    }
    Pass(p.lx.comments.len() >= 2 && out != p.src)
}

fn remove_comments(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 25, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    cfg.set("remove_comments", "true");
    cfg.make_safe();
    tame(ctx, &p, &mut cfg);
    judge_remove_comments(ctx, &p, &cfg)
}

fn j_remove_comments(ctx: &mut Ctx, src: &str, cfg: &Cfg) -> Outcome {
    judge_remove_comments(ctx, &fixed_program(src), cfg)
}

fn judge_remove_comments(ctx: &mut Ctx, p: &Parsed, cfg: &Cfg) -> Outcome {
    ctx.desc = show(&p.src, cfg);
    features(ctx, p);
    let out = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    let q = match reparse(&out) {
        Ok(q) => q,
        Err(o) => return o,
    };
    if !q.lx.comments.is_empty() {
        return Fail(format!("comment {:?} is still there: {:?}", q.lx.comments[0], out));
    }
    if p.lx.shebang != q.lx.shebang {
        return Fail(format!("shebang line {:?} became {:?}; output {:?}", p.lx.shebang, q.lx.shebang, out));
    }
    let vals = cfg.on("convert_charstring_to_normalstring");
    let (a, b) = (canonical_tokens(p, vals), canonical_tokens(&q, vals));
    if a != b {
        return Fail(format!("{}; output {:?}", first_diff(&a, &b), out));
    }
    Pass(p.lx.comments.len() >= 2)
}

fn identity(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { comments: 20, ..Opts::default() });
    judge_identity(ctx, &p)
}

fn j_identity(ctx: &mut Ctx, src: &str) -> Outcome {
    judge_identity(ctx, &fixed_program(src))
}

fn judge_identity(ctx: &mut Ctx, p: &Parsed) -> Outcome {
    ctx.desc = show(&p.src, &Cfg::default());
    features(ctx, p);
    let out = ok_or_judge!(fmt(ctx, &p.src, &Cfg::default().config()));
    // a comment or shebang line that ends the file without a newline gets one
    let ends_line = p.lx.comments.last().map(|c| c.level.is_none() && c.end == p.src.len()).unwrap_or(false)
        || p.lx.shebang.as_ref().map(|b| b.len() == p.src.len()).unwrap_or(false);
    let want = if ends_line { format!("{}\n", p.src) } else { p.src.clone() };
    if out != want {
        return Fail(format!("no option is set, but the output differs: {:?}", out));
    }
    Pass(p.lx.toks.len() >= 5)
}

fn accepts(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts::default());
    let mut cfg = cfggen::gen_safe(s);
    tame(ctx, &p, &mut cfg);
    judge_accepts(ctx, &p, &cfg)
}

fn j_accepts(ctx: &mut Ctx, src: &str, cfg: &Cfg) -> Outcome {
    judge_accepts(ctx, &fixed_program(src), cfg)
}

fn judge_accepts(ctx: &mut Ctx, p: &Parsed, cfg: &Cfg) -> Outcome {
    ctx.desc = show(&p.src, cfg);
    features(ctx, p);
    match fmt(ctx, &p.src, &cfg.config()) {
        Out::Ok(_) => {}
        Out::ParseErr(e) | Out::FmtErr(e) => return Fail(format!("valid program rejected: {}", e)),
        Out::Panic(e) => return Fail(format!("panic: {}", e)),
    }
    Pass(p.lx.toks.len() >= 5)
}
