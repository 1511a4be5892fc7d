//! Grammar-based generator of valid Lua 5.3 programs: a token sequence plus, for every gap between two tokens, the
//! trivia (whitespace and comments) in it.

use crate::engine::Src;
use crate::lualex;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Piece {
    Ws(String),
    /// `--text` + newline
    Line(String),
    /// `--[=*[text]=*]`
    Long(usize, String),
}

#[derive(Debug, Clone, Default)]
pub struct Prog {
    pub shebang: Option<String>,
    pub toks: Vec<String>,
    pub gaps: Vec<Vec<Piece>>,
    /// the last line comment of the program is not followed by a newline
    pub cut_eof: bool,
    /// 0: no carriage returns are added
    pub crlf: usize,
}

/// What to generate.
#[derive(Debug, Clone)]
pub struct Opts {
    pub stats: usize,
    pub block_depth: usize,
    pub exp_depth: usize,
    pub comments: u64, // chance in 100 of a comment per gap (for the wild style)
    pub unicode: bool,
    pub cr: bool,
    pub shebang: bool,
    /// function expressions
    pub funcs: bool,
    pub tables: bool,
    pub binops: bool,
    pub long_strings: bool,
    pub multiline_tokens: bool,
    pub semis: bool,
    pub paren_stats: bool,
    /// statement kinds to leave out
    pub no: &'static [Sk],
    pub style: Option<Style>,
    pub many_suffixes: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Sk {
    Local,
    Assign,
    Call,
    If,
    While,
    Repeat,
    ForNum,
    ForIn,
    Do,
    Func,
    LocalFunc,
    Semi,
    Goto,
    Label,
    Break,
    Return,
    ParenCall,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Style {
    /// one space between tokens, one newline between statements
    Canon,
    /// no trivia unless needed
    Tight,
    /// anything
    Wild,
    /// whitespace only, anything
    WildWs,
    /// several blanks between tokens
    Sparse,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            stats: 5,
            block_depth: 3,
            exp_depth: 3,
            comments: 10,
            unicode: true,
            cr: true,
            shebang: true,
            funcs: true,
            tables: true,
            binops: true,
            long_strings: true,
            multiline_tokens: true,
            semis: true,
            paren_stats: true,
            no: &[],
            style: None,
            many_suffixes: false,
        }
    }
}

pub const NAMES: &[&str] = &[
    "a", "b", "x", "foo", "bar_1", "_", "self", "value", "do_it", "ends", "nilx", "e1", "x1f", "LongIdentifierName", "_G",
    "notx", "orr", "android", "i", "function_",
];
const NUMS: &[&str] = &[
    "0", "1", "42", "3.14", ".5", "5.", "1e10", "1E-3", "2.5e+7", "0xff", "0XAB", "0xA8p1", "0X1P-4", "0x1p+2", "007",
    "1e0", "100000000000", "0xe1", "0x1e+1", "3e-0",
];
/// tokens that are really two: `0x1e+1` is 0x1e + 1
fn push_num(out: &mut Vec<String>, n: &str) {
    if n == "0x1e+1" {
        out.push("0x1e".into());
        out.push("+".into());
        out.push("1".into());
    } else {
        out.push(n.into());
    }
}

pub const BINOPS: &[&str] = &[
    "+", "-", "*", "/", "//", "%", "^", "..", "==", "~=", "<", ">", "<=", ">=", "and", "or", "&", "|", "~", "<<", ">>",
];

struct G<'a, 'b> {
    s: &'a mut Src,
    o: &'b Opts,
    t: Vec<String>,
    fuel: i64,
    /// token indices where statements start
    starts: Vec<usize>,
}

impl G<'_, '_> {
    fn p(&mut self, s: &str) {
        self.t.push(s.to_string());
    }
    fn name(&mut self) {
        let mut n = if self.s.chance(1, 24) { gen_name(self.s) } else { self.s.pick(NAMES).to_string() };
        if self.s.chance(1, 600) {
            n = n.repeat(self.s.range(8, 80));
        }
        self.t.push(n);
    }
    /// now and then, many of something
    fn many(&mut self, n: usize, most: usize) -> usize {
        if self.fuel > 20 && self.s.chance(1, 50) {
            let most = if self.s.chance(1, 10) { most * 10 } else { most };
            let n = size(self.s, n, most);
            self.fuel -= n as i64;
            n
        } else {
            n
        }
    }
    fn block(&mut self, d: usize, max: usize) {
        let mut n = if self.fuel <= 0 { 0 } else { self.s.weighted(&[2, 4, 4, 2, 1, 1]).min(max) };
        if n > 0 && max > 1 && self.fuel > 20 && self.s.chance(1, 50) {
            let most = if self.s.chance(1, 8) { 150 } else { 20 };
            n = self.s.range(n, most);
        }
        // may a statement start with a parenthesis here?
        let mut paren_ok = true;
        for _ in 0..n {
            paren_ok = self.stat(d, paren_ok);
        }
        if !self.o.no.contains(&Sk::Return) && self.s.chance(1, 8) {
            self.starts.push(self.t.len());
            self.p("return");
            if self.s.chance(3, 4) {
                self.explist(2, 3);
            }
            if self.o.semis && self.s.chance(1, 5) {
                self.p(";");
            }
        }
    }
    fn kind(&mut self, d: usize, paren_ok: bool) -> Sk {
        use Sk::*;
        let nest = if d > 0 { 3 } else { 0 };
        let table: [(Sk, u64); 17] = [
            (Local, 6),
            (Assign, 6),
            (Call, 6),
            (If, nest * 2),
            (While, nest),
            (Repeat, nest),
            (ForNum, nest),
            (ForIn, nest),
            (Do, nest),
            (Func, if d > 0 { 4 } else { 0 }),
            (LocalFunc, nest),
            (Semi, if self.o.semis { 1 } else { 0 }),
            (Goto, 1),
            (Label, 1),
            (Break, 1),
            (ParenCall, if self.o.paren_stats && paren_ok { 3 } else { 0 }),
            (Return, 0),
        ];
        let w: Vec<u64> = table.iter().map(|(k, w)| if self.o.no.contains(k) { 0 } else { *w }).collect();
        let i = self.s.weighted(&w);
        table[i].0
    }
    /// returns whether the next statement may start with `(` (grammar restriction of luafmt, see known findings)
    fn stat(&mut self, d: usize, paren_ok: bool) -> bool {
        self.fuel -= 1;
        if d > 0 && self.fuel > 20 && self.s.chance(1, 300) {
            self.block_tower();
            return false;
        }
        self.starts.push(self.t.len());
        let k = self.kind(d, paren_ok);
        let ed = self.o.exp_depth;
        match k {
            Sk::Local => {
                self.p("local");
                self.namelist(3);
                if self.s.chance(3, 4) {
                    self.p("=");
                    self.explist(ed, 3);
                    return false;
                }
                return true;
            }
            Sk::Assign => {
                let n = 1 + self.s.weighted(&[6, 2, 1]);
                for i in 0..n {
                    if i > 0 {
                        self.p(",");
                    }
                    self.lvalue(ed, (i > 0 || paren_ok) && self.o.paren_stats);
                }
                self.p("=");
                self.explist(ed, 3);
                return false;
            }
            Sk::Call => {
                self.name();
                self.suffixes(ed, true);
                return false;
            }
            Sk::ParenCall => {
                self.p("(");
                self.exp(ed.saturating_sub(1));
                self.p(")");
                self.suffixes(ed, true);
                return false;
            }
            Sk::If => {
                self.p("if");
                self.exp(2.min(ed));
                self.p("then");
                self.block(d - 1, 3);
                let n = self.s.weighted(&[5, 2, 1]);
                let n = self.many(n, 8);
                for _ in 0..n {
                    self.p("elseif");
                    self.exp(1.min(ed));
                    self.p("then");
                    self.block(d - 1, 2);
                }
                if self.s.chance(1, 2) {
                    self.p("else");
                    self.block(d - 1, 2);
                }
                self.p("end");
            }
            Sk::While => {
                self.p("while");
                self.exp(2.min(ed));
                self.p("do");
                self.block(d - 1, 3);
                self.p("end");
            }
            Sk::Repeat => {
                self.p("repeat");
                self.block(d - 1, 3);
                self.p("until");
                self.exp(2.min(ed));
                return false;
            }
            Sk::ForNum => {
                self.p("for");
                self.name();
                self.p("=");
                self.exp(1.min(ed));
                self.p(",");
                self.exp(1.min(ed));
                if self.s.chance(1, 2) {
                    self.p(",");
                    self.exp(1.min(ed));
                }
                self.p("do");
                self.block(d - 1, 3);
                self.p("end");
            }
            Sk::ForIn => {
                self.p("for");
                self.namelist(3);
                self.p("in");
                self.explist(2.min(ed), 2);
                self.p("do");
                self.block(d - 1, 3);
                self.p("end");
            }
            Sk::Do => {
                self.p("do");
                self.block(d - 1, 3);
                self.p("end");
            }
            Sk::Func => {
                self.p("function");
                self.name();
                for _ in 0..self.s.weighted(&[5, 2, 1]) {
                    self.p(".");
                    self.name();
                }
                if self.s.chance(1, 3) {
                    self.p(":");
                    self.name();
                }
                self.body(d - 1);
            }
            Sk::LocalFunc => {
                self.p("local");
                self.p("function");
                self.name();
                self.body(d - 1);
            }
            Sk::Semi => self.p(";"),
            Sk::Goto => {
                self.p("goto");
                self.name();
            }
            Sk::Label => {
                self.p("::");
                self.name();
                self.p("::");
            }
            Sk::Break => self.p("break"),
            Sk::Return => unreachable!(),
        }
        true
    }
    fn body(&mut self, d: usize) {
        self.p("(");
        let n = self.s.weighted(&[3, 4, 2, 1]);
        let n = self.many(n, 12);
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            self.name();
        }
        if self.s.chance(1, 4) {
            if n > 0 {
                self.p(",");
            }
            self.p("...");
        }
        self.p(")");
        self.block(d, 3);
        self.p("end");
    }
    fn namelist(&mut self, max: usize) {
        let mut n = 1 + self.s.weighted(&[6, 2, 1]).min(max - 1);
        if max > 1 {
            n = self.many(n, 12);
        }
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            self.name();
        }
    }
    fn explist(&mut self, d: usize, max: usize) {
        let mut n = 1 + self.s.weighted(&[6, 3, 1, 1]).min(max - 1);
        if max > 1 {
            n = self.many(n, 20);
        }
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            self.exp(if n > 4 { d.min(1) } else if n > 2 { d.min(2) } else { d });
        }
    }
    fn lvalue(&mut self, d: usize, paren: bool) {
        if paren && self.s.chance(1, 8) {
            self.p("(");
            self.exp(d.saturating_sub(1));
            self.p(")");
            self.suffixes(d, false);
        } else {
            self.name();
            if self.s.chance(1, 3) {
                self.suffixes(d, false);
            }
        }
    }
    /// a non-empty list of suffixes that ends in a call (`call`) or in an index
    fn suffixes(&mut self, d: usize, call: bool) {
        let n = if self.o.many_suffixes { self.s.weighted(&[3, 3, 2, 2, 1]) } else { self.s.weighted(&[5, 3, 1]) };
        let n = self.many(n, 10);
        let d = if n > 5 { d.min(1) } else { d };
        for _ in 0..n {
            match self.s.weighted(&[4, 2, 2, 1]) {
                0 => self.member(),
                1 => self.index(d),
                2 => self.args(d),
                _ => self.method(d),
            }
        }
        if call {
            if self.s.chance(1, 4) {
                self.method(d)
            } else {
                self.args(d)
            }
        } else if self.s.chance(1, 2) {
            self.index(d)
        } else {
            self.member()
        }
    }
    fn member(&mut self) {
        self.p(".");
        self.name();
    }
    fn index(&mut self, d: usize) {
        self.p("[");
        self.exp(d.saturating_sub(1));
        self.p("]");
    }
    fn method(&mut self, d: usize) {
        self.p(":");
        self.name();
        self.args(d);
    }
    fn args(&mut self, d: usize) {
        match self.s.weighted(&[6, if self.o.tables && d > 0 { 1 } else { 0 }, 1]) {
            0 => {
                self.p("(");
                if d > 0 {
                    match self.s.weighted(&[2, 5]) {
                        0 => {}
                        _ => self.explist(d - 1, 4),
                    }
                }
                self.p(")");
            }
            1 => self.table(d - 1),
            _ => self.string(),
        }
    }
    fn string(&mut self) {
        let s = gen_string(self.s, self.o);
        self.t.push(s);
    }
    fn atom(&mut self) {
        match self.s.weighted(&[6, 5, 4, 2, 1]) {
            0 => self.name(),
            1 => {
                let n = if self.s.chance(1, 16) { gen_num(self.s) } else { self.s.pick(NUMS).to_string() };
                push_num(&mut self.t, &n);
            }
            2 => self.string(),
            3 => {
                let w = self.s.pick(&["nil", "true", "false"]).to_string();
                self.t.push(w);
            }
            _ => self.p("..."),
        }
    }
    fn exp(&mut self, d: usize) {
        self.fuel -= 1;
        if d == 0 || self.fuel <= 0 {
            return self.atom();
        }
        if d > 1 && self.fuel > 20 && self.s.chance(1, 200) {
            return self.tower(d);
        }
        let o = self.o;
        let w = [
            8,
            if o.binops { 6 } else { 0 },
            3, // unary
            2, // paren
            4, // suffixed
            if o.tables { 4 } else { 0 },
            if o.funcs { 2 } else { 0 },
        ];
        match self.s.weighted(&w) {
            0 => self.atom(),
            1 => {
                let n = 1 + self.s.weighted(&[5, 2, 1]);
                let n = self.many(n, 15);
                self.exp(d - 1);
                let same = self.s.chance(1, 2);
                let mut op = self.s.pick(BINOPS).to_string();
                for _ in 0..n {
                    self.t.push(op.clone());
                    self.exp(if n > 1 { 0 } else { d - 1 });
                    if !same {
                        op = self.s.pick(BINOPS).to_string();
                    }
                }
            }
            2 => {
                let u = self.s.pick(&["-", "not", "#", "~"]).to_string();
                let at = self.t.len();
                self.t.push(u);
                self.exp(d - 1);
                // luafmt rejects a repeated unary minus (known finding)
                if self.t[at] == "-" && self.t[at + 1] == "-" {
                    self.t[at] = "~".to_string();
                }
            }
            3 => {
                self.p("(");
                self.exp(d - 1);
                self.p(")");
            }
            4 => {
                if self.s.chance(1, 6) {
                    self.p("(");
                    self.exp(d - 1);
                    self.p(")");
                } else {
                    self.name();
                }
                let call = self.s.chance(2, 3);
                self.suffixes(d, call);
            }
            5 => self.table(d),
            _ => {
                self.p("function");
                let bd = if d > 1 { 1 } else { 0 };
                self.body(bd);
            }
        }
    }
    /// many constructs inside of each other; luafmt's time doubles with the levels of some, of which there are fewer
    /// blocks in blocks
    fn block_tower(&mut self) {
        let mut kinds = vec![
            (Sk::Do, "do", "end"),
            (Sk::While, "while a do", "end"),
            (Sk::If, "if a then", "end"),
            (Sk::If, "if a then else", "end"),
            (Sk::If, "if a then elseif b then", "else end"),
            (Sk::Repeat, "repeat", "until a"),
            (Sk::ForNum, "for i = 1 , 2 do", "end"),
            (Sk::ForIn, "for k , v in p do", "end"),
            (Sk::Func, "function f ( )", "end"),
            (Sk::LocalFunc, "local function f ( a )", "end"),
        ];
        kinds.retain(|k| !self.o.no.contains(&k.0));
        if kinds.is_empty() {
            return;
        }
        let n = size(self.s, 3, 40);
        let one = self.s.chance(1, 2);
        let mut kind = self.s.pick_c(&kinds);
        let mut close = vec![];
        for _ in 0..n {
            if !one {
                kind = self.s.pick_c(&kinds);
            }
            self.starts.push(self.t.len());
            kind.1.split(' ').for_each(|t| self.p(t));
            close.push(kind.2);
            if self.s.chance(1, 8) {
                self.stat(0, true);
            }
        }
        for c in close.iter().rev() {
            c.split(' ').for_each(|t| self.p(t));
            if self.s.chance(1, 8) {
                self.stat(0, false);
            }
        }
        self.fuel -= n as i64;
    }
    fn tower(&mut self, d: usize) {
        let o = self.o;
        let mut kinds = vec![];
        if self.s.chance(1, 2) {
            kinds.extend([("(", ")"), ("not", ""), ("~", ""), ("#", ""), ("( 1 +", ")"), ("not (", ")")]);
        } else {
            kinds.extend([("f (", ")"), ("f ( 1 ,", ")"), ("a . b : c (", ")"), ("a [", "]"), ("# a . b [", "]"), ("a ( ) [", "]"), ("(", ")")]);
            if o.tables {
                kinds.extend([("{", "}"), ("{ x =", "}"), ("{ 1 , [ 2 ] =", "}"), ("f {", "}")]);
            }
            if o.funcs {
                kinds.extend([("function ( ) return", "end"), ("function ( a , ... ) local x =", "end")]);
            }
        }
        if !o.binops {
            kinds.retain(|k| !k.0.contains('+'));
        }
        let n = self.s.range(4, if kinds[0].0 == "(" { 60 } else { 7 });
        let one = self.s.chance(1, 2);
        let mut kind = self.s.pick_c(&kinds);
        let mut close = vec![];
        for _ in 0..n {
            if !one {
                kind = self.s.pick_c(&kinds);
            }
            kind.0.split(' ').for_each(|t| self.p(t));
            close.push(kind.1);
        }
        self.exp(d.min(1));
        for c in close.iter().rev().filter(|c| !c.is_empty()) {
            self.p(c);
        }
        self.fuel -= n as i64;
    }
    fn table(&mut self, d: usize) {
        self.p("{");
        let n = self.s.weighted(&[2, 3, 3, 2, 1]);
        let n = self.many(n, 30);
        let d = if n > 6 { d.min(1) } else { d };
        // sequential only, named only or mixed
        let mode = self.s.below(3);
        for i in 0..n {
            let named = match mode {
                0 => false,
                1 => true,
                _ => self.s.chance(1, 2),
            };
            if named {
                if self.s.chance(1, 3) {
                    self.p("[");
                    self.exp(d.saturating_sub(1));
                    self.p("]");
                } else {
                    self.name();
                }
                self.p("=");
            }
            self.exp(d.saturating_sub(1));
            if i + 1 < n || self.s.chance(1, 3) {
                let sep = if self.s.chance(1, 4) { ";" } else { "," };
                self.p(sep);
            }
        }
        self.p("}");
    }
}

const CHUNKS: &[&str] = &[
    "abc", " ", "x y", "--", "--[[", "\\n", "\\\\", "\\t", "\\\"", "\\'", "]]", "[[", "%d", "\\065", "\\x41", "0", "end",
    "\\u{48}", "{", "\\z  ", "$", "", "#!", "\\0",
];
const UCHUNKS: &[&str] = &["Привет", "é", "日本", "🙂", "\u{a0}", "\u{feff}", "\u{2028}"];

/// what the source of luafmt mentions: what is special to the code under test is worth trying
struct Dict {
    words: Vec<String>,
    /// characters which are not ASCII
    chars: Vec<String>,
    /// 20 or more
    numbers: Vec<usize>,
}

fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut out = std::collections::BTreeSet::new();
        let mut chars = std::collections::BTreeSet::new();
        let mut numbers = std::collections::BTreeSet::new();
        let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                let n = p.file_name().and_then(|n| n.to_str()).unwrap_or("").to_string();
                if p.is_dir() {
                    dirs.push(p);
                } else if (n.ends_with(".rs") || n.ends_with(".lalrpop")) && !n.ends_with("_syntax.rs") && !n.contains("test") {
                    let t = std::fs::read_to_string(&p).unwrap_or_default();
                    for l in t.split(|c| c == '\n') {
                        for (i, w) in l.split('"').enumerate() {
                            if i % 2 == 1 && !w.is_empty() && w.len() <= 24 && !w.contains('\\') && !w.contains("{}") {
                                out.insert(w.to_string());
                            }
                        }
                        chars.extend(l.chars().filter(|c| !c.is_ascii()).map(|c| c.to_string()));
                        for w in l.split("\\u{").skip(1) {
                            let h = w.split('}').next().and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
                            chars.extend(h.filter(|c| !c.is_ascii()).map(|c| c.to_string()));
                        }
                        for w in l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                            numbers.extend(w.parse::<usize>().ok().filter(|n| *n >= 20 && *n <= 1_000_000));
                        }
                    }
                }
            }
        }
        Dict { words: out.into_iter().collect(), chars: chars.into_iter().collect(), numbers: numbers.into_iter().collect() }
    })
}

fn uchunk(s: &mut Src) -> &'static str {
    let d = &dict().chars;
    if !d.is_empty() && s.chance(1, 4) {
        return &d[s.below(d.len())];
    }
    s.pick(UCHUNKS)
}

/// a number of things, `most` or less
fn size(s: &mut Src, least: usize, most: usize) -> usize {
    let d = &dict().numbers;
    if !d.is_empty() && s.chance(1, 6) {
        let n = d[s.below(d.len())] + s.below(3) - 1;
        if n >= least && n <= most {
            return n;
        }
    }
    s.range(least, most)
}

/// a text of one line without quotes and backslashes
fn gen_word(s: &mut Src) -> String {
    let d = &dict().words;
    if !d.is_empty() && s.chance(2, 3) {
        return d[s.below(d.len())].replace(|c| c == '\n' || c == '\r' || c == '\'' || c == '"' || c == '\\', "");
    }
    let mut w = String::new();
    for _ in 0..s.range(1, 6) {
        let c = (32 + s.below(95) as u8) as char;
        if c != '\\' && c != '"' && c != '\'' {
            w.push(c);
        }
    }
    w
}

const KEYWORDS: &[&str] = &[
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat",
    "return", "then", "true", "until", "while",
];

fn gen_name(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 => {
            let k = s.pick(KEYWORDS);
            match s.below(4) {
                0 => format!("{}_", k),
                1 => format!("_{}", k),
                2 => format!("{}1", k),
                _ => k.to_uppercase(),
            }
        }
        1 => gen_word(s).chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect(),
        2 => s.pick(&["x", "Ab_9", "_"]).repeat(s.range(1, 30)),
        _ => {
            let mut n = String::new();
            for _ in 0..s.range(1, 4) {
                n.push(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[s.below(53)] as char);
            }
            n
        }
    };
    if n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) || KEYWORDS.contains(&&n[..]) {
        return format!("n{}", n);
    }
    n
}

/// mostly 0, 1 or 2
fn gen_level(s: &mut Src) -> usize {
    let l = s.weighted(&[20, 8, 4, 1]);
    if l == 3 { s.range(3, 12) } else { l }
}

/// most texts have less than `n` parts, a few are long
fn parts(s: &mut Src, n: usize) -> usize {
    if s.chance(1, 80) {
        if s.chance(1, 10) { size(s, 60, 600) } else { s.range(n, 60) }
    } else {
        s.below(n)
    }
}

fn gen_num(s: &mut Src) -> String {
    let digits = |s: &mut Src, hex: bool, min: usize| -> String {
        let d = b"0123456789abcdefABCDEF";
        let most = if s.chance(1, 40) { 200 } else { 8 };
        (0..s.range(min, most)).map(|_| d[s.below(if hex { 22 } else { 10 })] as char).collect()
    };
    let sign = |s: &mut Src| s.pick(&["", "-", "+"]).to_string();
    if !dict().numbers.is_empty() && s.chance(1, 20) {
        return size(s, 0, 1_000_000).to_string();
    }
    if s.chance(1, 3) {
        let mut n = format!("0{}{}", s.pick(&["x", "X"]), digits(s, true, 1));
        if s.chance(1, 4) {
            n.push_str(&format!("{}{}{}", s.pick(&["p", "P"]), sign(s), digits(s, false, 1)));
        } else if n.ends_with(|c| c == 'e' || c == 'E') {
            // keep the sum of two numbers apart from an exponent
            n.push('0');
        }
        return n;
    }
    let mut n = digits(s, false, 1);
    if s.chance(1, 3) {
        n = format!("{}.{}", n, digits(s, false, 0));
    } else if s.chance(1, 5) {
        n = format!(".{}", n);
    }
    if s.chance(1, 4) {
        n.push_str(&format!("{}{}{}", s.pick(&["e", "E"]), sign(s), digits(s, false, 1)));
    }
    n
}

pub fn gen_string(s: &mut Src, o: &Opts) -> String {
    let kind = s.weighted(&[4, 4, if o.long_strings { 2 } else { 0 }]);
    if kind == 2 {
        let level = gen_level(s);
        let mut body = String::new();
        for _ in 0..parts(s, 4) {
            let alts: &[&str] = &["abc", " ", "\\", "]", "]=]", "\"", "'", "--", "[[", "=", "]]", "\\]", "x = 1"];
            match s.weighted(&[12, if o.multiline_tokens { 4 } else { 0 }, if o.unicode { 2 } else { 0 }]) {
                0 if s.chance(1, 10) => body.push_str(&gen_word(s)),
                0 => body.push_str(s.pick(alts)),
                1 => body.push_str(s.pick(&["\n", "\n\n  ", " \n"])),
                _ => body.push_str(uchunk(s)),
            }
        }
        let eq = "=".repeat(level);
        let close = format!("]{}]", eq);
        let full = format!("{}{}", body, close);
        if full.find(&close) != Some(body.len()) {
            body = body.replace(']', ")");
        }
        return format!("[{}[{}]{}]", eq, body, eq);
    }
    let q = if kind == 0 { '"' } else { '\'' };
    let mut body = String::new();
    for _ in 0..parts(s, 5) {
        match s.weighted(&[12, 3, if o.multiline_tokens { 1 } else { 0 }, if o.unicode { 2 } else { 0 }]) {
            0 if s.chance(1, 10) => body.push_str(&gen_word(s)),
            0 => body.push_str(s.pick(CHUNKS)),
            1 => body.push(if q == '"' { '\'' } else { '"' }),
            2 => body.push_str(s.pick(&["\\\n", "\\z\n   "])),
            _ => body.push_str(uchunk(s)),
        }
    }
    format!("{}{}{}", q, body, q)
}

const WORDS: &[&str] = &[
    "note", " TODO fix", "x = 1", "end", "", " ", "  spaced  out ", "-", "--", "[", "[=", "]]", "]", "\"", "'", "[x]", " [[", "=", "\t",
    "!", "]=", "\\",
];

pub fn gen_line_text(s: &mut Src, o: &Opts) -> String {
    let mut t = String::new();
    for _ in 0..parts(s, 4) {
        if o.unicode && s.chance(1, 8) {
            t.push_str(uchunk(s));
        } else if s.chance(1, 8) {
            t.push_str(&gen_word(s));
        } else {
            t.push_str(s.pick(WORDS));
        }
    }
    // must not open a long comment
    if let Some(rest) = t.strip_prefix('[') {
        if rest.trim_start_matches('=').starts_with('[') {
            t.insert(0, ' ');
        }
    }
    t
}

pub fn gen_long_text(s: &mut Src, o: &Opts) -> (usize, String) {
    let level = gen_level(s);
    let mut t = String::new();
    for _ in 0..parts(s, 4) {
        match s.weighted(&[10, 3, if o.unicode { 1 } else { 0 }]) {
            0 if s.chance(1, 8) => t.push_str(&gen_word(s)),
            0 => t.push_str(s.pick(WORDS)),
            1 => t.push_str(s.pick(&["\n", " \n  ", "\n\n"])),
            _ => t.push_str(uchunk(s)),
        }
    }
    let eq = "=".repeat(level);
    let close = format!("]{}]", eq);
    if format!("{}{}", t, close).find(&close) != Some(t.len()) {
        t = t.replace(']', ")");
    }
    (level, t)
}

fn gen_ws(s: &mut Src, o: &Opts) -> String {
    let n = 1 + s.weighted(&[6, 2, 1]);
    let mut w = String::new();
    for _ in 0..n {
        let alts = ["\n", " ", "    ", "\n\n", "\t", "\n  ", "  \n", "\r\n", "\n\n\n\t", " \t ", "\n \n", "\u{b}", " \u{c}"];
        let wts = [5, 8, 2, 2, 2, 3, 2, if o.cr { 1 } else { 0 }, 1, 1, 1, if o.cr { 1 } else { 0 }, if o.cr { 1 } else { 0 }];
        w.push_str(alts[s.weighted(&wts)]);
    }
    if s.chance(1, 40) {
        w = w.repeat(s.range(2, 40));
    }
    w
}

pub fn gen_gap(s: &mut Src, o: &Opts, style: Style, boundary: bool, edge: bool) -> Vec<Piece> {
    let mut g = vec![];
    match style {
        Style::Canon => {
            if boundary && !edge {
                g.push(Piece::Ws("\n".into()));
            } else if !edge {
                g.push(Piece::Ws(" ".into()));
            }
        }
        Style::Tight => {}
        Style::Sparse => {
            if !edge && s.chance(3, 4) {
                let n = s.range(1, 7);
                g.push(Piece::Ws(if boundary && s.chance(1, 2) { "\n".repeat(n) } else { " ".repeat(n) }));
            }
        }
        Style::Wild | Style::WildWs => {
            let ws = match s.weighted(&[5, 6, if boundary { 8 } else { 2 }, 2]) {
                0 => None,
                1 => Some(" ".to_string()),
                2 => Some("\n".to_string()),
                _ => Some(gen_ws(s, o)),
            };
            if let Some(w) = ws {
                g.push(Piece::Ws(w));
            }
        }
    }
    if style != Style::WildWs && o.comments > 0 {
        let c = if style == Style::Wild { o.comments } else { o.comments / 3 };
        let c = if boundary || edge { c * 2 } else { c };
        if c > 0 && s.chance(c.min(90), 100) {
            let n = if s.chance(1, 40) { s.range(3, 12) } else if s.chance(1, 400) { s.range(12, 60) } else { 1 + s.weighted(&[6, 2, 1]) };
            for _ in 0..n {
                if s.chance(1, 2) {
                    let (l, t) = gen_long_text(s, o);
                    g.push(Piece::Long(l, t));
                } else {
                    g.push(Piece::Line(gen_line_text(s, o)));
                }
                if s.chance(1, 3) {
                    g.push(Piece::Ws(gen_ws(s, o)));
                }
            }
        }
    }
    g
}

pub fn gen_tokens(s: &mut Src, o: &Opts) -> (Vec<String>, Vec<usize>) {
    // now and then deep blocks
    let depth = if o.block_depth > 2 && s.chance(1, 30) {
        o.block_depth + if s.chance(1, 10) { s.range(8, 60) } else { s.range(1, 8) }
    } else {
        o.block_depth
    };
    let mut g = G { s, o, t: vec![], fuel: 60, starts: vec![] };
    g.block(depth, o.stats);
    (g.t, g.starts)
}

/// exactly one statement
pub fn gen_stat_tokens(s: &mut Src, o: &Opts) -> Vec<String> {
    let mut g = G { s, o, t: vec![], fuel: 60, starts: vec![] };
    g.stat(o.block_depth, false);
    g.t
}

pub fn gen_exp_tokens(s: &mut Src, o: &Opts) -> Vec<String> {
    let mut g = G { s, o, t: vec![], fuel: 60, starts: vec![] };
    g.exp(o.exp_depth);
    g.t
}

pub fn with_trivia(s: &mut Src, o: &Opts, toks: Vec<String>, starts: &[usize]) -> Prog {
    s.stream(1, |s| trivia(s, o, toks, starts))
}

fn trivia(s: &mut Src, o: &Opts, toks: Vec<String>, starts: &[usize]) -> Prog {
    let style = match o.style {
        Some(x) => x,
        None => [Style::Canon, Style::Wild, Style::Tight, Style::WildWs][s.weighted(&[2, 6, 1, 1])],
    };
    let n = toks.len();
    let mut gaps = vec![];
    for i in 0..=n {
        let boundary = starts.contains(&i) || i == n || starts.contains(&(i + 1)) && i > 0;
        gaps.push(gen_gap(s, o, style, boundary, i == 0 || i == n));
    }
    if o.style.is_none() && s.chance(1, 1000) {
        // positions beyond 65535 in what follows
        // (not inside of a construct: nested ones are written again and again, see the known finding of P27)
        let at = if s.chance(4, 5) { 0 } else { n };
        let len = s.range(60000, 140000);
        let p = match s.below(if o.comments > 0 { 6 } else { 2 }) {
            0 => Piece::Ws(" ".repeat(len)),
            1 => Piece::Ws("\n".repeat(len)),
            2 => Piece::Long(s.below(3), "x".repeat(len)),
            3 => Piece::Long(s.below(3), "y\n".repeat(len / 2)),
            4 => Piece::Long(1, if o.unicode { "é".repeat(len) } else { "e ".repeat(len / 2) }),
            _ => Piece::Line("z".repeat(len)),
        };
        gaps[at].insert(0, p);
    }
    let shebang = if o.shebang && s.chance(1, 12) {
        Some(s.pick(&["#!/usr/bin/lua", "#!", "#!/usr/bin/env lua -- x", "#! \"q [[ "]).to_string())
    } else {
        None
    };
    let cut_eof = s.chance(1, 3);
    let crlf = if o.cr && o.style.is_none() && s.chance(1, 15) { s.range(1, 2) } else { 0 };
    Prog { shebang, toks, gaps, cut_eof, crlf }
}

pub fn gen_prog(s: &mut Src, o: &Opts) -> Prog {
    let (toks, starts) = gen_tokens(s, o);
    with_trivia(s, o, toks, &starts)
}

/// must `a` and `b` be kept apart?
pub fn need_sep(a: &str, b: &str) -> bool {
    let j = format!("{}{}", a, b);
    match lualex::lex_mode(&j, true) {
        Ok(l) => !(l.toks.len() == 2 && l.comments.is_empty() && l.toks[0].s == a && l.toks[1].s == b && l.shebang.is_none()),
        Err(_) => true,
    }
}

pub fn render_piece(p: &Piece, out: &mut String) {
    match p {
        Piece::Ws(w) => out.push_str(w),
        Piece::Line(t) => {
            out.push_str("--");
            out.push_str(t);
            out.push('\n');
        }
        Piece::Long(l, t) => {
            let eq = "=".repeat(*l);
            out.push_str(&format!("--[{}[{}]{}]", eq, t, eq));
        }
    }
}

impl Prog {
    pub fn render(&self) -> String {
        let mut out = String::new();
        if let Some(b) = &self.shebang {
            out.push_str(b);
            if !self.toks.is_empty() || !self.gaps[0].is_empty() {
                out.push('\n');
            }
        }
        let n = self.toks.len();
        for i in 0..=n {
            let mut g = String::new();
            for p in &self.gaps[i] {
                render_piece(p, &mut g);
            }
            if i > 0 && g.starts_with("--") && self.toks[i - 1].ends_with('-') {
                out.push(' ');
            }
            if i == n && self.cut_eof && matches!(self.gaps[i].last(), Some(Piece::Line(_))) {
                g.pop();
            }
            if g.is_empty() && i > 0 && i < n && need_sep(&self.toks[i - 1], &self.toks[i]) {
                out.push(' ');
            }
            out.push_str(&g);
            if i < n {
                out.push_str(&self.toks[i]);
            }
        }
        if self.shebang.is_none() && out.starts_with('#') {
            out.insert(0, ' ');
        }
        if self.crlf > 0 {
            // every line break or every second one becomes "\r\n", also in strings and comments
            let mut k = 0;
            let mut r = String::with_capacity(out.len() * 2);
            for c in out.chars() {
                if c == '\n' {
                    k += 1;
                    if k % self.crlf == 0 && !r.ends_with('\r') {
                        r.push('\r');
                    }
                }
                r.push(c);
            }
            out = r;
        }
        out
    }
    pub fn has_comments(&self) -> bool {
        self.gaps.iter().any(|g| g.iter().any(|p| !matches!(p, Piece::Ws(_))))
    }
    pub fn has_line_comments(&self) -> bool {
        self.gaps.iter().any(|g| g.iter().any(|p| matches!(p, Piece::Line(_))))
    }
}
