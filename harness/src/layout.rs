//! Reference layout: the text luafmt must produce for a program without comments when the configuration removes all
//! the whitespace of the input. It is written from what the options stand for, over the reference parser's tree.
//!
//! Every gap between two tokens carries the kind of construct that decides it, so that a property looks only at the
//! gaps it is about.

use crate::cfggen::Cfg;
use crate::lualex::K;
use crate::luaparse::{self, Kd, N};
use crate::sut::Parsed;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cat {
    /// start and end of the file
    File,
    /// between statements, around blocks
    Stat,
    /// inside the brackets of a table, and before its opening bracket
    Table,
    /// operators
    Op,
    /// expression lists
    List,
    /// suffix chains
    Suffix,
    /// all other gaps
    Space,
}

#[derive(Clone)]
pub struct Tk {
    /// the text before the token
    pub gap: String,
    pub cat: Cat,
    /// inside of a function expression
    pub inner: bool,
    /// the gap holds comments in the source
    pub comment: bool,
    pub text: String,
}

/// output text with its tokens
#[derive(Clone, Default)]
pub struct Buf {
    pub s: String,
    pub toks: Vec<Tk>,
    /// the gap at the end of the file holds comments
    pub end_comment: bool,
    comment: bool,
    at: usize,
    /// the gap before the next token is written
    cat: Option<Cat>,
    st: St,
}

impl Buf {
    fn tok(&mut self, t: &str, inner: bool) {
        let gap = self.s[self.at..].to_string();
        let cat = self.cat.take().unwrap_or(Cat::Space);
        self.s.push_str(t);
        self.at = self.s.len();
        self.toks.push(Tk { gap, cat, inner, comment: self.comment, text: t.to_string() });
        self.comment = false;
    }
    fn append(&mut self, o: &Buf) {
        for (i, t) in o.toks.iter().enumerate() {
            self.s.push_str(&t.gap);
            // the gap before the first token is written already
            if i > 0 || self.cat.is_none() {
                self.cat = Some(t.cat);
                self.comment = t.comment;
            }
            self.tok(&t.text, t.inner);
        }
    }
    /// the text after the last token
    pub fn tail(&self) -> &str {
        &self.s[self.at..]
    }
    fn col(&self) -> usize {
        self.s.chars().rev().take_while(|c| *c != '\n').count()
    }
    fn first_line(&self) -> usize {
        self.s.chars().take_while(|c| *c != '\n').count()
    }
}

#[derive(Clone)]
pub struct C {
    indent: String,
    eof: bool,
    stat: bool,
    do_end: bool,
    for_: bool,
    function: Option<u64>,
    if_: Option<u64>,
    repeat: bool,
    while_: bool,
    table_ctor: Option<u64>,
    table_field: bool,
    table_hint: String,
    nl_table: bool,
    nl_explist_table: bool,
    binop: u64,
    suffix: bool,
    list: Option<u64>,
    list_first: Option<u64>,
    indent_suffix: bool,
    indent_one_suffix: bool,
    indent_list: bool,
    indent_one_list: bool,
    sep: Option<String>,
    trailing: Option<bool>,
    width: Option<usize>,
    one_binop: bool,
    one_table: bool,
    one_iv: bool,
    one_kv: bool,
    one_if: bool,
    one_top: bool,
    one_scoped: bool,
    one_suffix: bool,
    one_list: bool,
    nl_table_false: bool,
}

impl C {
    fn of(c: &Cfg) -> C {
        let num = |k: &str| c.get(k).and_then(|v| v.parse::<u64>().ok());
        let text = |k: &str| c.get(k).unwrap_or("").to_string();
        let b = |k: &str| match c.get(k) {
            Some("true") => Some(true),
            Some("false") => Some(false),
            _ => None,
        };
        let on = |k: &str| b(k) == Some(true);
        C {
            indent: text("indentation_string"),
            eof: on("write_newline_at_eof"),
            stat: num("newline_format_statement").is_some(),
            do_end: num("newline_format_do_end") == Some(1),
            for_: num("newline_format_for") == Some(1),
            function: num("newline_format_function"),
            if_: num("newline_format_if"),
            repeat: num("newline_format_repeat_until") == Some(1),
            while_: num("newline_format_while") == Some(1),
            table_ctor: num("newline_format_table_constructor"),
            table_field: num("newline_format_table_field").is_some(),
            table_hint: text("hint_table_constructor"),
            nl_table: on("write_newline_at_multiline_table"),
            nl_table_false: b("write_newline_at_multiline_table") == Some(false),
            nl_explist_table: on("write_newline_at_explist_multiline_table"),
            binop: num("newline_format_binary_op").unwrap_or(0),
            suffix: num("newline_format_var_suffix").is_some(),
            list: num("newline_format_exp_list"),
            list_first: num("newline_format_exp_list_first"),
            indent_suffix: on("indent_var_suffix"),
            indent_one_suffix: on("indent_one_line_var_suffix"),
            indent_list: on("indent_exp_list"),
            indent_one_list: on("indent_one_line_exp_list"),
            sep: c.get("field_separator").map(|s| s.to_string()),
            trailing: b("write_trailing_field_separator"),
            width: c.get("max_width").and_then(|v| v.parse().ok()),
            one_binop: on("force_single_line_binary_op"),
            one_table: on("force_single_line_table"),
            one_iv: on("force_single_line_iv_table_field"),
            one_kv: on("force_single_line_kv_table_field"),
            one_if: on("force_single_line_if"),
            one_top: on("force_single_line_top_level_function"),
            one_scoped: on("force_single_line_scoped_function"),
            one_suffix: on("force_single_line_var_suffix"),
            one_list: on("force_single_line_exp_list"),
        }
    }
}

#[derive(Clone, Default)]
struct St {
    level: usize,
    stack: Vec<Option<String>>,
    func: usize,
}

impl St {
    fn inc(&mut self, k: Option<&str>) {
        let k = k.map(|x| x.to_string());
        if k.is_none() || self.stack.last() != Some(&k) {
            self.level += 1;
        }
        self.stack.push(k);
    }
    fn dec(&mut self) {
        let last = self.stack.pop().unwrap();
        if last.is_none() || self.stack.last() != Some(&last) {
            self.level -= 1;
        }
    }
}

struct M<'a> {
    p: &'a Parsed,
    g: G,
    gaps: Vec<Gap>,
    /// tables (by first token) once written on one line
    oneline: RefCell<HashMap<usize, bool>>,
    /// tables whose fields were indented when last written
    has_indent: RefCell<HashMap<usize, bool>>,
    /// tables that are not the only field of a table
    not_single: HashMap<usize, bool>,
}

pub fn layout(p: &Parsed, cfg: &Cfg) -> Buf {
    let c = C::of(cfg);
    let mut not_single = HashMap::new();
    let tree = luaparse::parse_left(&p.lx.toks).unwrap();
    tree.walk(&mut |n| {
        if n.k == Kd::Table {
            for f in &n.c {
                if f.k == Kd::FieldSeq && f.c[0].k == Kd::Table {
                    not_single.insert(f.c[0].a, n.c.len() != 1);
                }
            }
        }
    });
    let n = p.lx.toks.len();
    let mut at = p.lx.shebang.as_ref().map(|s| (s.trim_end_matches('\n').len() + 1).min(p.src.len())).unwrap_or(0);
    let mut gaps = vec![];
    for i in 0..=n {
        let end = if i < n { p.lx.toks[i].start } else { p.src.len() };
        gaps.push(scan(&p.src[at..end]));
        at = if i < n { p.lx.toks[i].end } else { end };
    }
    let g = G::of(cfg);
    let m = M { p, g, gaps, oneline: Default::default(), has_indent: Default::default(), not_single };
    let mut f = Buf::default();
    if let Some(b) = &p.lx.shebang {
        f.s.push_str(b.trim_end_matches('\n'));
        f.s.push('\n');
        f.at = f.s.len();
    }
    if n == 0 && p.lx.shebang.is_none() {
        m.gap(&mut f, 0, false, Cat::File, "");
        m.gap(&mut f, NONE, c.eof, Cat::File, "");
    } else {
        if n > 0 {
            m.gap(&mut f, 0, false, Cat::File, "");
        }
        m.block(&tree, &mut f, &c, false);
        m.gap(&mut f, n, c.eof, Cat::File, "");
    }
    f.end_comment = f.comment;
    f
}

fn starts_paren(p: &Parsed, n: &N) -> bool {
    p.lx.toks[n.a].k == K::Op && p.lx.toks[n.a].s == "("
}

/// no text of the source belongs to the gap
const NONE: usize = usize::MAX;

enum Item {
    Newline,
    Line(String),
    Long(usize, String),
}

/// a gap of the source: (spaces before, item)*, spaces at the end
#[derive(Default)]
struct Gap(Vec<(String, Item)>, String);

fn scan(mut s: &str) -> Gap {
    let mut g = Gap::default();
    loop {
        let k = s.len() - s.trim_start_matches(|c| " \t\r\x0b\x0c".contains(c)).len();
        let sp = s[..k].to_string();
        s = &s[k..];
        if s.is_empty() {
            g.1 = sp;
            return g;
        }
        if s.starts_with('\n') {
            g.0.push((sp, Item::Newline));
            s = &s[1..];
            continue;
        }
        assert!(s.starts_with("--"));
        s = &s[2..];
        if s.starts_with('[') {
            let l = s[1..].len() - s[1..].trim_start_matches('=').len();
            if s[1 + l..].starts_with('[') {
                let close = format!("]{}]", "=".repeat(l));
                let e = s[2 + l..].find(&close).unwrap();
                g.0.push((sp, Item::Long(l, s[2 + l..2 + l + e].to_string())));
                s = &s[2 + l + e + close.len()..];
                continue;
            }
        }
        let e = s.find('\n').unwrap_or(s.len());
        g.0.push((sp, Item::Line(s[..e].to_string())));
        s = &s[(e + 1).min(s.len())..];
    }
}

/// options for gaps
pub struct G {
    zero: bool,
    spaces: bool,
    all_nl: bool,
    single_nl: bool,
    comments: bool,
    before: Option<String>,
    after: Option<String>,
    line_text: Option<String>,
    long_before: Option<String>,
    long_after: Option<String>,
    first_line: bool,
    first_long: bool,
    line: bool,
    long: bool,
    indent: String,
    quotes: bool,
}

impl G {
    fn of(c: &Cfg) -> G {
        let on = |k: &str| c.get(k) == Some("true");
        let one = |k: &str| c.get(k).and_then(|v| v.parse::<u64>().ok()) == Some(1);
        let text = |k: &str| c.get(k).map(|s| s.to_string());
        G {
            zero: on("replace_zero_spaces_with_hint"),
            spaces: on("remove_spaces_between_tokens"),
            all_nl: on("remove_all_newlines"),
            single_nl: on("remove_single_newlines"),
            comments: on("remove_comments"),
            before: text("hint_before_comment"),
            after: text("hint_after_multiline_comment"),
            line_text: text("hint_before_oneline_comment_text"),
            long_before: text("hint_before_multiline_comment_text"),
            long_after: text("hint_after_multiline_comment_text"),
            first_line: one("newline_format_first_oneline_comment"),
            first_long: one("newline_format_first_multiline_comment"),
            line: one("newline_format_oneline_comment"),
            long: one("newline_format_multiline_comment"),
            indent: text("indentation_string").unwrap_or_default(),
            quotes: on("convert_charstring_to_normalstring"),
        }
    }
}

/// a single-quoted literal in double quotes
pub fn double_quoted(s: &str) -> String {
    let mut r = String::from("\"");
    let mut esc = false;
    for c in s[1..s.len() - 1].chars() {
        if c == '"' && !esc {
            r.push('\\');
        }
        r.push(c);
        esc = c == '\\' && !esc;
    }
    r.push('"');
    r
}

fn blank(c: char) -> bool {
    c == ' ' || c == '\t'
}

impl M<'_> {
    /// a line break at the end of `f` (whose first `keep` bytes stay) and the indentation of the next line
    fn line_break(&self, f: &mut String, keep: usize, level: usize) {
        while f.len() > keep && f.ends_with(blank) {
            f.pop();
        }
        if !f.ends_with('\n') {
            f.push('\n');
        }
        for _ in 0..level {
            f.push_str(&self.g.indent);
        }
    }

    /// the comments and newlines of a gap
    fn comments(&self, gap: &Gap, prev: char, level: usize) -> String {
        let g = &self.g;
        let sp = |s: &str| if g.spaces { String::new() } else { s.to_string() };
        let mut f = prev.to_string();
        let keep = f.len();
        let items = &gap.0;
        let only_newline = items.len() == 1 && matches!(items[0].1, Item::Newline);
        for (i, (s, it)) in items.iter().enumerate() {
            if i == 0 {
                // the spaces before the first item
                f.push_str(&sp(s));
            }
            if i == 0 && only_newline && g.single_nl {
                continue;
            }
            let after_comment = i > 0 && !matches!(items[i - 1].1, Item::Newline);
            let own_line = match it {
                Item::Newline => false,
                Item::Line(_) => if i == 0 { g.first_line } else { g.line },
                Item::Long(..) => if i == 0 { g.first_long } else { g.long },
            };
            if own_line {
                let sp = sp(s);
                let rest = sp.trim_end_matches(blank);
                if i > 0 && !rest.is_empty() {
                    // other spaces than blanks and tabs
                    f.push_str(rest);
                    f.push('\n');
                    for _ in 0..level {
                        f.push_str(&g.indent);
                    }
                } else {
                    self.line_break(&mut f, 1, level);
                }
            } else if i > 0 {
                match (after_comment, it, &g.before, g.spaces) {
                    (true, Item::Line(_), Some(h), true) | (true, Item::Long(..), Some(h), true) => f.push_str(h),
                    _ => f.push_str(&sp(s)),
                }
            }
            match it {
                Item::Newline => {
                    if !g.all_nl {
                        f.push('\n')
                    }
                }
                Item::Line(_) if g.comments => {
                    if !g.all_nl {
                        f.push('\n')
                    }
                }
                Item::Long(..) if g.comments => {}
                Item::Line(t) => {
                    f.push_str("--");
                    match &g.line_text {
                        None => f.push_str(t),
                        Some(h) => {
                            let t = t.trim_start();
                            if !t.is_empty() {
                                let all = format!("{}{}", h, t);
                                if all.starts_with('[') && all[1..].trim_start_matches('=').starts_with('[') {
                                    f.push(' ');
                                }
                                f.push_str(&all);
                            }
                        }
                    }
                    f.push('\n');
                }
                Item::Long(l, t) => {
                    let eq = "=".repeat(*l);
                    let mut t = &t[..];
                    f.push_str(&format!("--[{}[", eq));
                    if let Some(h) = &g.long_before {
                        t = t.trim_start();
                        f.push_str(h);
                    }
                    let mut end = String::new();
                    if let Some(h) = &g.long_after {
                        t = t.trim_end();
                        end.push_str(h);
                        if format!("{}{}", t, h).ends_with(&format!("]{}", eq)) {
                            end.push(' ');
                        }
                    }
                    f.push_str(&format!("{}{}]{}]", t, end, eq));
                }
            }
        }
        f.push_str(&sp(&gap.1));
        f[keep..].to_string()
    }

    /// writes the gap before token `i`: on a new line if `nl`, else the source's gap or the hint if it is empty
    fn gap(&self, f: &mut Buf, i: usize, nl: bool, cat: Cat, h: &str) {
        f.cat = Some(cat);
        let none = Gap::default();
        let gap = if i == NONE { &none } else { &self.gaps[i] };
        f.comment |= gap.0.iter().any(|x| !matches!(x.1, Item::Newline));
        let prev = if nl { ' ' } else { f.s.chars().last().unwrap_or(' ') };
        let t = self.comments(gap, prev, f.st.level);
        let mut b = String::new();
        if !t.is_empty() {
            if let (Some(h), true) = (&self.g.before, t.starts_with('-')) {
                b.push_str(h);
            }
            if t.starts_with('-') && (if nl || !b.is_empty() { &b } else { &f.s }).ends_with('-') {
                b.push(' ');
            }
            b.push_str(&t);
            if let (Some(h), true) = (&self.g.after, t.ends_with(']')) {
                b.push_str(h);
            }
        } else if !nl && self.g.zero {
            b.push_str(h);
        }
        if !nl {
            f.s.push_str(&b);
            return;
        }
        let b = b.trim_end_matches(blank);
        if b.is_empty() {
            self.line_break(&mut f.s, 1, f.st.level);
            return;
        }
        if b.starts_with('-') && f.s.ends_with('-') {
            f.s.push(' ');
        }
        f.s.push_str(b);
        if !f.s.ends_with('\n') {
            f.s.push('\n');
        }
        for _ in 0..f.st.level {
            f.s.push_str(&self.g.indent);
        }
    }

    /// the gap before a token that follows without a space
    fn pre(&self, f: &mut Buf, i: usize) {
        if f.cat.is_none() {
            self.gap(f, i, false, Cat::Space, "");
        }
    }

    fn t(&self, f: &mut Buf, i: usize, inner: bool) {
        self.pre(f, i);
        let t = &self.p.lx.toks[i];
        if t.k == K::LongStr && f.s.ends_with('[') {
            f.s.push(' ');
        }
        match t.k {
            K::Str if self.g.quotes && t.s.starts_with('\'') => f.tok(&double_quoted(&t.s), inner),
            _ => f.tok(&t.s, inner),
        }
    }

    fn span(&self, n: &N) -> usize {
        let (a, b) = (self.p.lx.toks[n.a].start, self.p.lx.toks[n.b - 1].end);
        self.p.src[a..b].chars().count()
    }

    /// does what `w` writes fit on the current line up to its first newline?
    fn fits(&self, f: &Buf, c: &C, w: &dyn Fn(&mut Buf)) -> Option<Buf> {
        let mut b = Buf { st: f.st.clone(), cat: Some(Cat::Space), ..Buf::default() };
        w(&mut b);
        match c.width {
            Some(m) if f.col() + b.first_line() < m => Some(b),
            _ => None,
        }
    }

    fn fits_no_nl(&self, f: &Buf, c: &C, w: &dyn Fn(&mut Buf)) -> Option<Buf> {
        self.fits(f, c, w).filter(|b| !b.s.contains('\n'))
    }

    fn short(&self, n: &N, c: &C) -> bool {
        c.width.map(|w| self.span(n) < w.saturating_mul(2)).unwrap_or(false)
    }

    fn block(&self, b: &N, f: &mut Buf, c: &C, inn: bool) {
        for (i, s) in b.c.iter().enumerate() {
            if i > 0 {
                let h = match s.k {
                    Kd::Semi if !b.c.get(i + 1).map(|n| starts_paren(self.p, n)).unwrap_or(false) => "",
                    _ => " ",
                };
                self.gap(f, s.a, c.stat, Cat::Stat, h);
            }
            self.stat(s, f, c, inn);
        }
    }

    /// an indented block between two keywords, up to the gap before the closing one
    fn body(&self, b: &N, nl: bool, f: &mut Buf, c: &C, inn: bool) {
        f.st.inc(None);
        self.gap(f, b.a, nl, Cat::Stat, " ");
        self.block(b, f, c, inn);
        f.st.dec();
        self.gap(f, b.b, nl, Cat::Stat, " ");
    }

    fn space(&self, f: &mut Buf, i: usize) {
        self.gap(f, i, false, Cat::Space, " ");
    }

    fn stat(&self, n: &N, f: &mut Buf, c: &C, inn: bool) {
        use Kd::*;
        let t = |f: &mut Buf, i: usize| self.t(f, i, inn);
        match n.k {
            Semi | Break => t(f, n.a),
            Label => {
                for i in n.a..n.b {
                    t(f, i);
                }
            }
            Goto => {
                t(f, n.a);
                self.space(f, n.a + 1);
                t(f, n.a + 1);
            }
            Do => {
                t(f, n.m[0]);
                if n.c[0].c.is_empty() {
                    self.gap(f, n.m[1], false, Cat::Stat, " ");
                } else {
                    self.body(&n.c[0], c.do_end, f, c, inn);
                }
                t(f, n.m[1]);
            }
            While => {
                t(f, n.m[0]);
                self.space(f, n.c[0].a);
                self.exp(&n.c[0], f, c, inn);
                self.space(f, n.m[1]);
                t(f, n.m[1]);
                self.maybe_body(&n.c[1], c.while_, f, c, inn);
                t(f, n.m[2]);
            }
            Repeat => {
                t(f, n.m[0]);
                self.maybe_body(&n.c[0], c.repeat, f, c, inn);
                t(f, n.m[1]);
                self.space(f, n.c[1].a);
                self.exp(&n.c[1], f, c, inn);
            }
            If => {
                if c.one_if && c.if_.is_some() && self.short(n, c) {
                    let c2 = C { if_: None, ..c.clone() };
                    if let Some(b) = self.fits_no_nl(f, &c2, &|b| self.stat(n, b, &c2, inn)) {
                        f.append(&b);
                        return;
                    }
                }
                let nl = c.if_ == Some(1);
                let k = n.m.len() - 1; // index of `end`
                let has_else = n.c.len() % 2 == 1;
                let elseifs = n.c.len() / 2 - 1;
                let mut j = 0;
                for i in 0..=elseifs {
                    t(f, n.m[j]);
                    self.space(f, n.c[2 * i].a);
                    self.exp(&n.c[2 * i], f, c, inn);
                    self.space(f, n.m[j + 1]);
                    t(f, n.m[j + 1]);
                    j += 2;
                    let b = &n.c[2 * i + 1];
                    if !b.c.is_empty() {
                        f.st.inc(None);
                        self.gap(f, b.a, nl, Cat::Stat, " ");
                        self.block(b, f, c, inn);
                        f.st.dec();
                    }
                    // an empty first branch does not break the line before `else`
                    let brk = nl && !(b.c.is_empty() && elseifs == 0 && has_else);
                    self.gap(f, b.b, brk, Cat::Stat, " ");
                }
                if has_else {
                    t(f, n.m[j]);
                    self.maybe_body(n.c.last().unwrap(), nl, f, c, inn);
                }
                t(f, n.m[k]);
            }
            ForNum => {
                t(f, n.m[0]);
                self.space(f, n.c[0].a);
                t(f, n.c[0].a);
                self.space(f, n.m[1]);
                t(f, n.m[1]);
                let exps = n.c.len() - 2;
                for i in 0..exps {
                    self.space(f, n.c[1 + i].a);
                    self.exp(&n.c[1 + i], f, c, inn);
                    if i + 1 < exps {
                        t(f, n.m[2 + i]);
                    }
                }
                self.space(f, n.m[n.m.len() - 2]);
                t(f, n.m[n.m.len() - 2]);
                let b = n.c.last().unwrap();
                // an empty body without a step does not break the line
                self.maybe_body(b, c.for_ && !(b.c.is_empty() && exps == 2), f, c, inn);
                t(f, *n.m.last().unwrap());
            }
            ForIn => {
                t(f, n.m[0]);
                self.space(f, n.c[0].a);
                self.names(&n.c[0], f, inn);
                self.space(f, n.m[1]);
                t(f, n.m[1]);
                self.rhs(&n.c[1], f, c, inn);
                self.space(f, n.m[2]);
                t(f, n.m[2]);
                self.maybe_body(&n.c[2], c.for_, f, c, inn);
                t(f, n.m[3]);
            }
            Func => {
                t(f, n.m[0]);
                self.space(f, n.c[0].a);
                for i in n.c[0].a..n.c[0].b {
                    t(f, i);
                }
                self.func(&n.c[1], f, c, inn);
            }
            LocalFunc => {
                t(f, n.m[0]);
                self.space(f, n.m[1]);
                t(f, n.m[1]);
                self.space(f, n.c[0].a);
                t(f, n.c[0].a);
                self.func(&n.c[1], f, c, inn);
            }
            Local => {
                t(f, n.m[0]);
                self.space(f, n.c[0].a);
                self.names(&n.c[0], f, inn);
                if n.c.len() > 1 {
                    self.space(f, n.m[1]);
                    t(f, n.m[1]);
                    self.rhs(&n.c[1], f, c, inn);
                }
            }
            Assign => {
                let v = &n.c[0];
                for (i, x) in v.c.iter().enumerate() {
                    if i > 0 {
                        t(f, v.m[i - 1]);
                        self.space(f, x.a);
                    }
                    self.exp(x, f, c, inn);
                }
                self.space(f, n.m[0]);
                t(f, n.m[0]);
                self.rhs(&n.c[1], f, c, inn);
            }
            CallStat => self.exp(&n.c[0], f, c, inn),
            Return => {
                t(f, n.m[0]);
                let semi = n.m.get(1).copied();
                if let Some(e) = n.c.first() {
                    let ind = self.list_indent(e, " ", f, c, inn);
                    if ind {
                        f.st.inc(None);
                    }
                    self.gap(f, e.a, false, Cat::List, " ");
                    self.list(e, f, c, inn);
                    if let Some(i) = semi {
                        self.pre(f, i);
                    }
                    if ind {
                        f.st.dec();
                    }
                }
                if let Some(i) = semi {
                    t(f, i);
                }
            }
            _ => unreachable!(),
        }
    }

    fn maybe_body(&self, b: &N, nl: bool, f: &mut Buf, c: &C, inn: bool) {
        if b.c.is_empty() {
            self.gap(f, b.b, nl, Cat::Stat, " ");
        } else {
            self.body(b, nl, f, c, inn);
        }
    }

    fn names(&self, n: &N, f: &mut Buf, inn: bool) {
        for (i, x) in n.c.iter().enumerate() {
            if i > 0 {
                self.t(f, n.m[i - 1], inn);
                self.space(f, x.a);
            }
            self.t(f, x.a, inn);
        }
    }

    /// an expression list after `=`, `in` or `return`
    fn rhs(&self, e: &N, f: &mut Buf, c: &C, inn: bool) {
        let ind = self.list_indent(e, " ", f, c, inn);
        if ind {
            f.st.inc(None);
        }
        self.gap(f, e.a, false, Cat::List, " ");
        self.list(e, f, c, inn);
        if ind {
            f.st.dec();
        }
    }

    fn list_indent(&self, e: &N, h: &str, f: &Buf, c: &C, inn: bool) -> bool {
        if e.c.len() == 1 && c.list_first.is_none() {
            return c.indent_list && c.indent_one_list;
        }
        if !c.indent_list || c.indent_one_list {
            return c.indent_list;
        }
        let mut f2 = f.clone();
        self.gap(&mut f2, e.a, false, Cat::List, h);
        self.list(e, &mut f2, c, inn)
    }

    /// writes an expression list; was any of its items put on a new line?
    fn list(&self, e: &N, f: &mut Buf, c: &C, inn: bool) -> bool {
        let on = c.list.is_some() || c.list_first.is_some();
        let mut any = false;
        for (i, x) in e.c.iter().enumerate() {
            if i > 0 {
                self.t(f, e.m[i - 1], inn);
            }
            let one = |f: &Buf| c.one_list && self.fits(f, c, &|b| self.exp(x, b, c, inn)).is_some();
            let nl = on
                && if i == 0 {
                    c.list_first == Some(1) && !one(f)
                } else if x.k == Kd::Table && !x.c.is_empty() && c.nl_explist_table && c.nl_table_false {
                    true
                } else {
                    c.list == Some(1) && !one(f)
                };
            any |= nl;
            if i > 0 {
                self.gap(f, x.a, nl, Cat::List, " ");
            } else if nl {
                self.gap(f, NONE, true, Cat::List, "");
            }
            self.exp(x, f, c, inn);
        }
        any
    }

    fn exp(&self, n: &N, f: &mut Buf, c: &C, inn: bool) {
        self.pre(f, n.a);
        use Kd::*;
        match n.k {
            Name | Lit => self.t(f, n.a, inn),
            Paren => {
                self.t(f, n.m[0], inn);
                self.exp(&n.c[0], f, c, inn);
                self.t(f, n.m[1], inn);
            }
            Un => {
                self.t(f, n.m[0], inn);
                if self.p.lx.toks[n.m[0]].s == "not" {
                    self.space(f, n.c[0].a);
                }
                self.exp(&n.c[0], f, c, inn);
            }
            Bin => {
                let op = &self.p.lx.toks[n.m[0]].s;
                f.st.inc(Some(op));
                self.exp(&n.c[0], f, c, inn);
                let (mut nl1, mut nl2) = (c.binop == 1, c.binop == 2);
                if (nl1 || nl2) && c.one_binop {
                    let w = |b: &mut Buf| {
                        self.gap(b, n.m[0], false, Cat::Op, " ");
                        self.t(b, n.m[0], inn);
                        self.gap(b, n.c[1].a, false, Cat::Op, " ");
                        self.exp(&n.c[1], b, c, inn);
                    };
                    if self.fits(f, c, &w).is_some() {
                        nl1 = false;
                        nl2 = false;
                    }
                }
                self.gap(f, n.m[0], nl1, Cat::Op, " ");
                self.t(f, n.m[0], inn);
                self.gap(f, n.c[1].a, nl2, Cat::Op, " ");
                self.exp(&n.c[1], f, c, inn);
                f.st.dec();
            }
            Suffixed => {
                self.exp(&n.c[0], f, c, inn);
                let ind = c.indent_suffix
                    && (c.indent_one_suffix || {
                        let mut f2 = f.clone();
                        self.suffixes(n, &mut f2, c, inn)
                    });
                if ind {
                    f.st.inc(None);
                }
                self.suffixes(n, f, c, inn);
                if ind {
                    f.st.dec();
                }
            }
            FuncExpr => {
                self.t(f, n.m[0], inn);
                self.func(&n.c[0], f, c, true);
            }
            Table => self.table(n, f, c, inn),
            _ => unreachable!(),
        }
    }

    /// writes the suffixes; was any of them put on a new line?
    fn suffixes(&self, n: &N, f: &mut Buf, c: &C, inn: bool) -> bool {
        use Kd::*;
        let mut any = false;
        for (i, x) in n.c.iter().enumerate().skip(1) {
            let mut nl = false;
            if i == 1 {
                self.gap(f, x.a, false, Cat::Suffix, "");
            }
            if c.suffix && matches!(x.k, Member | Method) {
                nl = true;
                if c.one_suffix {
                    let short = x.k == Method
                        && match x.c[1].k {
                            ArgTable => true,
                            Args => x.c[1].c.is_empty() || c.list_first.is_some(),
                            _ => false,
                        };
                    let w = |b: &mut Buf| {
                        if short {
                            self.t(b, x.m[0], inn);
                            self.t(b, x.c[0].a, inn);
                        } else {
                            self.suffix(x, b, c, inn);
                        }
                    };
                    nl = self.fits(f, c, &w).is_none();
                }
            }
            any |= nl;
            let h = if x.k == ArgStr && i > 1 { " " } else { "" };
            if i > 1 {
                self.gap(f, x.a, nl, Cat::Suffix, h);
            } else if nl {
                self.gap(f, NONE, true, Cat::Suffix, "");
            }
            self.suffix(x, f, c, inn);
        }
        any
    }

    fn suffix(&self, x: &N, f: &mut Buf, c: &C, inn: bool) {
        use Kd::*;
        match x.k {
            Member => {
                self.t(f, x.m[0], inn);
                self.t(f, x.c[0].a, inn);
            }
            Index => {
                self.t(f, x.m[0], inn);
                self.exp(&x.c[0], f, c, inn);
                self.t(f, x.m[1], inn);
            }
            Method => {
                self.t(f, x.m[0], inn);
                self.t(f, x.c[0].a, inn);
                self.suffix(&x.c[1], f, c, inn);
            }
            Args => {
                self.t(f, x.m[0], inn);
                if let Some(e) = x.c.first() {
                    let ind = self.list_indent(e, "", f, c, inn);
                    if ind {
                        f.st.inc(None);
                    }
                    self.gap(f, e.a, false, Cat::List, "");
                    self.list(e, f, c, inn);
                    if ind {
                        f.st.dec();
                    }
                }
                self.t(f, x.m[1], inn);
            }
            ArgTable => self.table(&x.c[0], f, c, inn),
            ArgStr => self.t(f, x.a, inn),
            _ => unreachable!(),
        }
    }

    fn func(&self, n: &N, f: &mut Buf, c: &C, inn: bool) {
        self.pre(f, n.m[0]);
        let one = (f.st.func == 0 && c.one_top) || (f.st.func > 0 && c.one_scoped);
        if one && c.function.is_some() && self.short(n, c) {
            let c2 = C { function: None, ..c.clone() };
            if let Some(b) = self.fits_no_nl(f, &c2, &|b| self.func(n, b, &c2, inn)) {
                f.append(&b);
                return;
            }
        }
        let nl = c.function == Some(1);
        self.t(f, n.m[0], inn);
        if n.c[0].c.is_empty() {
            self.pre(f, n.m[1]);
        } else {
            f.st.inc(None);
            self.names(&n.c[0], f, inn);
            self.pre(f, n.m[1]);
            f.st.dec();
        }
        self.t(f, n.m[1], inn);
        if n.c[1].c.is_empty() {
            self.gap(f, n.m[2], nl, Cat::Stat, " ");
        } else {
            f.st.func += 1;
            self.body(&n.c[1], nl, f, c, inn);
            f.st.func -= 1;
        }
        self.t(f, n.m[2], inn);
    }

    fn table(&self, n: &N, f: &mut Buf, c: &C, inn: bool) {
        self.pre(f, n.a);
        let h = &c.table_hint;
        if n.c.is_empty() {
            self.t(f, n.m[0], inn);
            let mut b = Buf { st: f.st.clone(), ..Buf::default() };
            self.gap(&mut b, n.m[1], false, Cat::Table, h);
            let nl = c.table_ctor.is_some() && b.s.contains('\n');
            self.gap(f, n.m[1], nl, Cat::Table, h);
            self.t(f, n.m[1], inn);
            return;
        }
        if c.one_table && c.table_ctor.is_some() && self.short(n, c) {
            let c2 = C {
                table_ctor: None,
                table_field: false,
                trailing: Some(false),
                nl_table: false,
                nl_table_false: true,
                nl_explist_table: false,
                ..c.clone()
            };
            if let Some(b) = self.fits_no_nl(f, &c2, &|b| self.table(n, b, &c2, inn)) {
                self.oneline.borrow_mut().insert(n.a, true);
                f.append(&b);
                return;
            }
        }
        let oneline = |a: usize| self.oneline.borrow().get(&a).copied().unwrap_or(false);
        if c.nl_table && !oneline(n.a) {
            self.gap(f, NONE, true, Cat::Table, "");
        }
        self.t(f, n.m[0], inn);
        f.st.func += 1;
        let iv = n.c.iter().all(|x| x.k == Kd::FieldSeq);
        let single = !self.not_single.get(&n.a).copied().unwrap_or(false);
        let ind = if c.one_table && iv && single {
            let mut f2 = f.clone();
            self.gap(&mut f2, n.c[0].a, false, Cat::Table, h);
            self.fields(n, iv, single, &mut f2, c, inn)
        } else {
            true
        };
        self.has_indent.borrow_mut().insert(n.a, ind);
        if ind {
            f.st.inc(None);
        }
        self.gap(f, n.c[0].a, false, Cat::Table, h);
        self.fields(n, iv, single, f, c, inn);
        let full = c.width.map(|w| f.col() >= w).unwrap_or(false);
        let nl = (c.table_ctor == Some(1) || full) && ind;
        if ind {
            f.st.dec();
        }
        f.st.func -= 1;
        let close = *n.m.last().unwrap();
        self.gap(f, close, nl, Cat::Table, h);
        self.t(f, close, inn);
    }

    fn fields(&self, n: &N, iv: bool, single: bool, f: &mut Buf, c: &C, inn: bool) -> bool {
        let indented = || self.has_indent.borrow().get(&n.a).copied().unwrap_or(false);
        let mut any = false;
        for (i, x) in n.c.iter().enumerate() {
            if i > 0 {
                let src = &self.p.lx.toks[n.m[i]].s;
                self.gap(f, n.m[i], false, Cat::Table, "");
                f.tok(c.sep.as_ref().unwrap_or(src), inn);
            }
            let fit = |f: &Buf| self.fits_no_nl(f, c, &|b| self.field(x, b, c, inn)).is_some();
            let nl = c.table_field
                && if iv && c.one_iv {
                    if i == 0 {
                        if c.one_table {
                            indented() || !single
                        } else {
                            !(self.short(x, c) && fit(f))
                        }
                    } else if c.one_table {
                        let prev = &n.c[i - 1].c[0];
                        if prev.k == Kd::Table && !prev.c.is_empty() {
                            let o = self.oneline.borrow().get(&prev.a).copied().unwrap_or(false);
                            o || fit(f)
                        } else {
                            !fit(f)
                        }
                    } else {
                        false
                    }
                } else if !iv && c.one_kv {
                    !(self.short(x, c) && fit(f))
                } else {
                    true
                };
            any |= nl;
            if i > 0 {
                self.gap(f, x.a, nl, Cat::Table, " ");
            } else if nl {
                self.gap(f, NONE, true, Cat::Table, "");
            }
            self.field(x, f, c, inn);
        }
        let trailing = if c.one_table && (!c.table_field && c.table_ctor.is_none() || iv && !indented()) {
            Some(false)
        } else {
            c.trailing
        };
        // the separator that follows the last field in the source
        let last = if n.m.len() - 2 == n.c.len() { Some(&self.p.lx.toks[n.m[n.m.len() - 2]].s) } else { None };
        let sep = match trailing {
            Some(true) => c.sep.as_ref().or(last),
            Some(false) => None,
            None => last.map(|l| c.sep.as_ref().unwrap_or(l)),
        };
        if last.is_some() {
            self.gap(f, n.m[n.c.len()], false, Cat::Table, "");
        }
        if let Some(s) = sep {
            f.tok(s, inn);
        }
        any
    }

    fn field(&self, x: &N, f: &mut Buf, c: &C, inn: bool) {
        match x.k {
            Kd::FieldSeq => self.exp(&x.c[0], f, c, inn),
            Kd::FieldNamed => {
                self.t(f, x.c[0].a, inn);
                self.space(f, x.m[0]);
                self.t(f, x.m[0], inn);
                self.space(f, x.c[1].a);
                self.exp(&x.c[1], f, c, inn);
            }
            _ => {
                self.t(f, x.m[0], inn);
                self.exp(&x.c[0], f, c, inn);
                self.t(f, x.m[1], inn);
                self.space(f, x.m[2]);
                self.t(f, x.m[2], inn);
                self.space(f, x.c[1].a);
                self.exp(&x.c[1], f, c, inn);
            }
        }
    }
}
