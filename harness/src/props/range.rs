//! Formatting a range of lines.

use super::text::{features, ok_or_judge, program, show};
use super::{tame, Fixed, Prop};
use crate::cfggen::{self, Cfg};
use crate::engine::{Ctx, Outcome, Src};
use crate::gen::{Opts, Style};
use crate::sut::{self, fmt, Out, Parsed};

use Outcome::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P10",
            name: "line-range-outside",
            f: outside,
            fixed: fixed(),
            probe: None,
            quick: 200000,
            thorough: 2500000,
            rule: "programs x configurations x line ranges; the text before and after the selected lines, extended to whole top-level statements, must be unchanged; non-trivial: the range leaves some statement out and changes the text",
        },
        Prop {
            id: "P11",
            name: "line-range-inside",
            f: inside,
            fixed: fixed_inside(),
            probe: None,
            quick: 130000,
            thorough: 2000000,
            rule: "programs x configurations x line ranges; a selected statement that starts in the same output column must come out as it does when the whole file is formatted, and a range of all lines must equal no range; non-trivial: at least one selected statement is changed",
        },
    ]
}

const FIXED: &[(&str, usize, usize)] = &[
    ("a = 1 --Привет\n\nlocal b", 2, 2),
    ("do end(\na)()local a", 1, 1),
    ("x = 1\nreturn {\nf(\n1),\n}", 2, 2),
    ("return f(\n1)(\n2), {\n1}", 2, 2),
    ("x = 1\n\n\ny   =   2\nz  =  3\n", 4, 4),
];

fn fixed() -> Vec<Fixed> {
    FIXED
        .iter()
        .map(|(src, l, r)| {
            Box::new(move |ctx: &mut Ctx| judge_outside(ctx, &sut::parse(src).expect("fixed input"), &Cfg::shipped(), *l, *r)) as Fixed
        })
        .collect()
}

/// with newline_format_statement = 1
const INSIDE: &[(&str, usize, usize)] = &[("local a\na =  1 return", 2, 2), ("f(\n1) g() return   x", 2, 2)];

fn fixed_inside() -> Vec<Fixed> {
    INSIDE
        .iter()
        .map(|(src, l, r)| {
            Box::new(move |ctx: &mut Ctx| {
                judge_inside(ctx, &sut::parse(src).expect("fixed input"), Cfg::of(&[("newline_format_statement", "1")]), *l, *r, false)
            }) as Fixed
        })
        .collect()
}

/// byte positions [a, b) that luafmt's documentation of line numbers gives to lines l..=r (from the end of line l-1)
fn byte_range(src: &str, l: usize, r: usize) -> (usize, usize) {
    let nl: Vec<usize> = src.char_indices().filter(|(_, c)| *c == '\n').map(|(i, _)| i).collect();
    let a = if l <= 1 { 0 } else { nl.get(l - 2).copied().unwrap_or(src.len()) };
    let b = if r == 0 { 0 } else { nl.get(r - 1).copied().unwrap_or(src.len()) };
    (a, b)
}

fn lines(src: &str) -> usize {
    src.matches('\n').count() + 1
}

/// extended to the whole of every top-level statement, and of the space with its comments between two of them, that
/// it touches
fn extend(p: &Parsed, (a, b): (usize, usize)) -> (usize, usize) {
    let (mut x, mut y) = (a, b);
    let mut last = p.lx.shebang.as_ref().map(|s| s.len()).unwrap_or(0);
    let mut spans = vec![(0, last)];
    for st in &p.tree.c {
        let (s, e) = (p.lx.toks[st.a].start, p.lx.toks[st.b - 1].end);
        spans.push((last, s));
        spans.push((s, e));
        last = e;
    }
    spans.push((last, p.src.len()));
    for (s, e) in spans {
        if s < b && e > a {
            x = x.min(s);
            y = y.max(e);
        }
    }
    (x, y)
}

/// one in four near the end
fn a_range(s: &mut Src, n: usize) -> (usize, usize) {
    let l = if s.chance(1, 4) { n - s.below(n.min(8)) } else { s.range(1, n) };
    (l, s.range(l, n))
}

fn outside(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = program(s, &Opts { stats: 5, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    tame(ctx, &p, &mut cfg);
    let n = lines(&p.src);
    let (l, r) = a_range(s, n);
    judge_outside(ctx, &p, &cfg, l, r)
}

fn judge_outside(ctx: &mut Ctx, p: &Parsed, cfg: &Cfg, l: usize, r: usize) -> Outcome {
    let mut cfg = cfg.clone();
    cfg.set("line_range", &format!("{}:{}", l, r));
    ctx.desc = show(&p.src, &cfg);
    features(ctx, p);
    let (x, y) = extend(p, byte_range(&p.src, l, r));
    let out = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    let (pre, post) = (&p.src[..x], &p.src[y..]);
    if !out.starts_with(pre) {
        return Fail(format!("lines {}..{} are selected, but the text before them changed\nbefore: {:?}\noutput: {:?}", l, r, pre, out));
    }
    // the end of the file is not a line of the program: write_newline_at_eof holds for it whatever lines are selected
    let ws = &[' ', '\t', '\n'][..];
    let eof = cfg.on("write_newline_at_eof");
    let post_kept = if eof { out.ends_with('\n') && out.trim_end_matches(ws).ends_with(post.trim_end_matches(ws)) } else { out.ends_with(post) };
    let (o, q) = if eof { (out.trim_end_matches(ws).len(), post.trim_end_matches(ws).len()) } else { (out.len(), post.len()) };
    if !post_kept || o < pre.trim_end_matches(ws).len() + q {
        return Fail(format!("lines {}..{} are selected, but the text after them changed\nafter:  {:?}\noutput: {:?}", l, r, post, out));
    }
    let left_out = p.tree.c.iter().any(|st| p.lx.toks[st.b - 1].end <= x || p.lx.toks[st.a].start >= y);
    Pass(left_out && out != p.src)
}

fn stat_texts(p: &Parsed) -> Vec<String> {
    p.tree.c.iter().map(|st| p.src[p.lx.toks[st.a].start..p.lx.toks[st.b - 1].end].to_string()).collect()
}

/// between a top-level statement and the one before it
fn gap_before(p: &Parsed, i: usize) -> &str {
    &p.src[p.lx.toks[p.tree.c[i - 1].b - 1].end..p.lx.toks[p.tree.c[i].a].start]
}

fn column(p: &Parsed, i: usize) -> usize {
    let before = &p.src[..p.lx.toks[p.tree.c[i].a].start];
    before.chars().rev().take_while(|c| *c != '\n').count()
}

fn inside(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let style = if s.chance(1, 2) { Some(Style::Canon) } else { None };
    let p = program(s, &Opts { stats: 5, style, ..Opts::default() });
    let mut cfg = cfggen::gen_safe(s);
    tame(ctx, &p, &mut cfg);
    let n = lines(&p.src);
    let whole = s.chance(1, 5);
    let (l, r) = if whole {
        (1, n)
    } else {
        a_range(s, n)
    };
    judge_inside(ctx, &p, cfg, l, r, whole)
}

fn judge_inside(ctx: &mut Ctx, p: &Parsed, mut cfg: Cfg, l: usize, r: usize, whole: bool) -> Outcome {
    let full = ok_or_judge!(fmt(ctx, &p.src, &cfg.config()));
    cfg.set("line_range", &format!("{}:{}", l, r));
    ctx.desc = show(&p.src, &cfg);
    features(ctx, p);
    let out = match fmt(ctx, &p.src, &cfg.config()) {
        Out::Ok(o) => o,
        o => return Fail(format!("formatted without, but not with a line range: {:?}", o)),
    };
    if whole {
        ctx.label("all lines");
        if out != full {
            return Fail(format!("all lines are selected, but the output differs from that without a range\nrange: {:?}\nwhole: {:?}", out, full));
        }
        return Pass(out != p.src);
    }
    let (x, y) = extend(p, byte_range(&p.src, l, r));
    let (q, f) = match (sut::parse(&out), sut::parse(&full)) {
        (Ok(q), Ok(f)) => (q, f),
        _ => return Fail(format!("the output is not a valid program: {:?}", out)),
    };
    let (a, b, c) = (stat_texts(p), stat_texts(&q), stat_texts(&f));
    if a.len() != b.len() || a.len() != c.len() {
        return Fail(format!("the number of top-level statements changed: {:?}", out));
    }
    let mut nontrivial = false;
    let sel: Vec<bool> = p.tree.c.iter().map(|st| p.lx.toks[st.a].start >= x && p.lx.toks[st.b - 1].end <= y && p.lx.toks[st.a].start < y).collect();
    for i in 1..sel.len() {
        if sel[i - 1] && sel[i] {
            let (a, b, c) = (gap_before(p, i), gap_before(&q, i), gap_before(&f, i));
            if b != c {
                return Fail(format!("the gap before selected statement {} differs from that in the whole formatted file\nrange: {:?}\nwhole: {:?}", i, b, c));
            }
            nontrivial |= a != b;
        }
    }
    for (i, st) in p.tree.c.iter().enumerate() {
        let (ss, ee) = (p.lx.toks[st.a].start, p.lx.toks[st.b - 1].end);
        if ss >= x && ee <= y && ss < y {
            // what fits on the line depends on where the statement starts
            if column(&q, i) != column(&f, i) {
                ctx.label("statement not compared: starts in another column");
                continue;
            }
            if b[i] != c[i] {
                return Fail(format!("selected statement {} differs from that in the whole formatted file\nrange: {:?}\nwhole: {:?}", i, b[i], c[i]));
            }
            nontrivial |= a[i] != b[i];
        }
    }
    Pass(nontrivial)
}
