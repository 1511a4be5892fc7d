//! Reference recursive-descent parser for Lua 5.3 (manual section 9), over the reference lexer's tokens.
//! `lenient` additionally accepts the non-Lua programs luafmt is known to let through on purpose or by design of its
//! grammar (expression statements, calls as assignment targets, `...` anywhere in a parameter list); it is only used to
//! decide what luafmt must *reject*.

use crate::lualex::{Tok, K};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Kd {
    Block,
    // statements
    Semi,
    Label,
    Break,
    Goto,
    Do,
    While,
    Repeat,
    If,
    ForNum,
    ForIn,
    Func,
    LocalFunc,
    Local,
    Assign,
    CallStat,
    Return,
    // expressions
    Bin,
    Un,
    Paren,
    Name,
    Lit,
    Suffixed,
    FuncExpr,
    Table,
    // pieces
    Member,
    Index,
    Method,
    Args,    // ( explist? )
    ArgTable,
    ArgStr,
    ExpList,
    VarList,
    NameList,
    ParList,
    Body,
    FieldNamed,
    FieldBracket,
    FieldSeq,
    FuncName,
}

#[derive(Debug, Clone)]
pub struct N {
    pub k: Kd,
    /// token range [a, b)
    pub a: usize,
    pub b: usize,
    pub c: Vec<N>,
    /// indices of the construct's own keyword / bracket / separator tokens
    pub m: Vec<usize>,
}

pub fn is_stat(k: Kd) -> bool {
    use Kd::*;
    matches!(
        k,
        Semi | Label | Break | Goto | Do | While | Repeat | If | ForNum | ForIn | Func | LocalFunc | Local | Assign
            | CallStat | Return
    )
}

impl N {
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a N)) {
        f(self);
        for c in &self.c {
            c.walk(f);
        }
    }
    pub fn any(&self, p: &dyn Fn(&N) -> bool) -> bool {
        p(self) || self.c.iter().any(|c| c.any(p))
    }
    pub fn depth(&self) -> usize {
        1 + self.c.iter().map(|c| c.depth()).max().unwrap_or(0)
    }
}

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
    lenient: bool,
    /// `..` and `^` group to the left, as luafmt's grammar does (it only affects layout)
    left: bool,
    /// stop where luafmt does: at what cannot be assigned to, and at the forms it rejects (known findings)
    pin: bool,
}

type R<T> = Result<T, String>;

pub fn parse(t: &[Tok], lenient: bool) -> R<N> {
    run(t, lenient, false)
}

pub fn parse_left(t: &[Tok]) -> R<N> {
    run(t, false, true)
}

/// index of the first token the (lenient) parser cannot go on with
pub fn stuck_at(t: &[Tok]) -> Option<usize> {
    let mut p = P { t, i: 0, lenient: true, left: false, pin: true };
    match p.block() {
        Ok(_) if p.i == t.len() => None,
        _ => Some(p.i),
    }
}

fn run(t: &[Tok], lenient: bool, left: bool) -> R<N> {
    let mut p = P { t, i: 0, lenient, left, pin: false };
    let b = p.block()?;
    if p.i != t.len() {
        return Err(format!("unexpected `{}` (token {})", t[p.i].s, p.i));
    }
    Ok(b)
}

impl<'a> P<'a> {
    fn at(&self, s: &str) -> bool {
        match self.t.get(self.i) {
            Some(t) => (t.k == K::Kw || t.k == K::Op) && t.s == s,
            None => false,
        }
    }
    fn at_k(&self, k: K) -> bool {
        self.t.get(self.i).map(|t| t.k == k).unwrap_or(false)
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.at(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, s: &str) -> R<usize> {
        if self.at(s) {
            self.i += 1;
            Ok(self.i - 1)
        } else {
            Err(format!("`{}` expected at token {}", s, self.i))
        }
    }
    fn node(&self, k: Kd, a: usize, c: Vec<N>, m: Vec<usize>) -> N {
        N { k, a, b: self.i, c, m }
    }
    fn name(&mut self) -> R<N> {
        if self.at_k(K::Name) {
            self.i += 1;
            Ok(self.node(Kd::Name, self.i - 1, vec![], vec![]))
        } else {
            Err(format!("name expected at token {}", self.i))
        }
    }
    fn block_end(&self) -> bool {
        self.i >= self.t.len() || self.at("end") || self.at("else") || self.at("elseif") || self.at("until")
    }
    fn block(&mut self) -> R<N> {
        let a = self.i;
        let mut c = vec![];
        while !self.block_end() {
            if self.at("return") {
                let ra = self.i;
                let mut m = vec![self.i];
                self.i += 1;
                let mut rc = vec![];
                if !self.block_end() && !self.at(";") {
                    rc.push(self.explist()?);
                }
                if self.at(";") {
                    m.push(self.i);
                    self.i += 1;
                }
                let n = self.node(Kd::Return, ra, rc, m);
                c.push(n);
                if !self.block_end() {
                    return Err("statement after return".into());
                }
                break;
            }
            let st = self.stat()?;
            if self.pin && self.at("(") && (matches!(st.k, Kd::Assign | Kd::Repeat) || st.k == Kd::Local && st.c.len() == 2) {
                return Err("a statement in parentheses behind a value".into());
            }
            c.push(st);
        }
        Ok(self.node(Kd::Block, a, c, vec![]))
    }
    fn stat(&mut self) -> R<N> {
        let a = self.i;
        let tok = &self.t[a];
        if tok.k == K::Op && tok.s == ";" {
            self.i += 1;
            return Ok(self.node(Kd::Semi, a, vec![], vec![a]));
        }
        if tok.k == K::Op && tok.s == "::" {
            self.i += 1;
            let n = self.name()?;
            self.want("::")?;
            return Ok(self.node(Kd::Label, a, vec![n], vec![a, a + 2]));
        }
        if tok.k == K::Kw {
            match &tok.s[..] {
                "break" => {
                    self.i += 1;
                    return Ok(self.node(Kd::Break, a, vec![], vec![a]));
                }
                "goto" => {
                    self.i += 1;
                    let n = self.name()?;
                    return Ok(self.node(Kd::Goto, a, vec![n], vec![a]));
                }
                "do" => {
                    self.i += 1;
                    let b = self.block()?;
                    let e = self.want("end")?;
                    return Ok(self.node(Kd::Do, a, vec![b], vec![a, e]));
                }
                "while" => {
                    self.i += 1;
                    let e = self.exp(0)?;
                    let d = self.want("do")?;
                    let b = self.block()?;
                    let en = self.want("end")?;
                    return Ok(self.node(Kd::While, a, vec![e, b], vec![a, d, en]));
                }
                "repeat" => {
                    self.i += 1;
                    let b = self.block()?;
                    let u = self.want("until")?;
                    let e = self.exp(0)?;
                    return Ok(self.node(Kd::Repeat, a, vec![b, e], vec![a, u]));
                }
                "if" => {
                    self.i += 1;
                    let mut c = vec![];
                    let mut m = vec![a];
                    c.push(self.exp(0)?);
                    m.push(self.want("then")?);
                    c.push(self.block()?);
                    loop {
                        if self.at("elseif") {
                            m.push(self.i);
                            self.i += 1;
                            c.push(self.exp(0)?);
                            m.push(self.want("then")?);
                            c.push(self.block()?);
                        } else if self.at("else") {
                            m.push(self.i);
                            self.i += 1;
                            c.push(self.block()?);
                            m.push(self.want("end")?);
                            break;
                        } else {
                            m.push(self.want("end")?);
                            break;
                        }
                    }
                    return Ok(self.node(Kd::If, a, c, m));
                }
                "for" => {
                    self.i += 1;
                    let n = self.name()?;
                    if self.at("=") {
                        let mut m = vec![a, self.i];
                        self.i += 1;
                        let mut c = vec![n, self.exp(0)?];
                        m.push(self.want(",")?);
                        c.push(self.exp(0)?);
                        if self.at(",") {
                            m.push(self.i);
                            self.i += 1;
                            c.push(self.exp(0)?);
                        }
                        m.push(self.want("do")?);
                        c.push(self.block()?);
                        m.push(self.want("end")?);
                        return Ok(self.node(Kd::ForNum, a, c, m));
                    }
                    let mut names = vec![n];
                    let na = names[0].a;
                    let mut nm = vec![];
                    while self.at(",") {
                        nm.push(self.i);
                        self.i += 1;
                        names.push(self.name()?);
                    }
                    let nl = self.node(Kd::NameList, na, names, nm);
                    let mut m = vec![a];
                    m.push(self.want("in")?);
                    let el = self.explist()?;
                    m.push(self.want("do")?);
                    let b = self.block()?;
                    m.push(self.want("end")?);
                    return Ok(self.node(Kd::ForIn, a, vec![nl, el, b], m));
                }
                "function" => {
                    self.i += 1;
                    let na = self.i;
                    let mut c = vec![self.name()?];
                    let mut m = vec![];
                    while self.at(".") {
                        m.push(self.i);
                        self.i += 1;
                        c.push(self.name()?);
                    }
                    if self.at(":") {
                        m.push(self.i);
                        self.i += 1;
                        c.push(self.name()?);
                    }
                    let n = self.node(Kd::FuncName, na, c, m);
                    let b = self.body()?;
                    return Ok(self.node(Kd::Func, a, vec![n, b], vec![a]));
                }
                "local" => {
                    self.i += 1;
                    if self.eat("function") {
                        let n = self.name()?;
                        let b = self.body()?;
                        return Ok(self.node(Kd::LocalFunc, a, vec![n, b], vec![a, a + 1]));
                    }
                    let na = self.i;
                    let mut names = vec![self.name()?];
                    let mut nm = vec![];
                    while self.at(",") {
                        nm.push(self.i);
                        self.i += 1;
                        names.push(self.name()?);
                    }
                    let nl = self.node(Kd::NameList, na, names, nm);
                    let mut c = vec![nl];
                    let mut m = vec![a];
                    if self.at("=") {
                        m.push(self.i);
                        self.i += 1;
                        c.push(self.explist()?);
                    }
                    return Ok(self.node(Kd::Local, a, c, m));
                }
                _ => return Err(format!("unexpected `{}`", tok.s)),
            }
        }
        // assignment or call
        let e = self.suffixed()?;
        if self.at("=") || self.at(",") {
            let mut c = vec![e];
            let mut vm = vec![];
            loop {
                if self.pin && c.last().unwrap().k == Kd::Paren {
                    return Err("cannot assign to this expression".into());
                }
                if !self.at(",") {
                    break;
                }
                vm.push(self.i);
                self.i += 1;
                c.push(self.suffixed()?);
            }
            for v in &c {
                let ok = match v.k {
                    Kd::Name => true,
                    Kd::Suffixed => {
                        self.lenient || matches!(v.c.last().unwrap().k, Kd::Member | Kd::Index)
                    }
                    _ => false,
                };
                if !ok {
                    return Err("cannot assign to this expression".into());
                }
            }
            let vl = self.node(Kd::VarList, a, c, vm);
            let eq = self.want("=")?;
            let el = self.explist()?;
            return Ok(self.node(Kd::Assign, a, vec![vl, el], vec![eq]));
        }
        let ok = match e.k {
            Kd::Suffixed => {
                self.lenient
                    || matches!(e.c.last().unwrap().k, Kd::Args | Kd::ArgTable | Kd::ArgStr | Kd::Method)
            }
            Kd::Paren => self.lenient,
            _ => false,
        };
        if !ok {
            return Err("syntax error: expression is not a statement".into());
        }
        Ok(self.node(Kd::CallStat, a, vec![e], vec![]))
    }
    fn body(&mut self) -> R<N> {
        let a = self.i;
        let mut m = vec![self.want("(")?];
        let pa = self.i;
        let mut ps = vec![];
        let mut pm = vec![];
        if !self.at(")") {
            loop {
                if self.at("...") {
                    let q = self.i;
                    self.i += 1;
                    ps.push(self.node(Kd::Lit, q, vec![], vec![]));
                    if !self.lenient {
                        break;
                    }
                } else {
                    ps.push(self.name()?);
                }
                if self.at(",") {
                    pm.push(self.i);
                    self.i += 1;
                } else {
                    break;
                }
            }
        }
        let pl = self.node(Kd::ParList, pa, ps, pm);
        m.push(self.want(")")?);
        let b = self.block()?;
        m.push(self.want("end")?);
        Ok(self.node(Kd::Body, a, vec![pl, b], m))
    }
    fn explist(&mut self) -> R<N> {
        let a = self.i;
        let mut c = vec![self.exp(0)?];
        let mut m = vec![];
        while self.at(",") {
            m.push(self.i);
            self.i += 1;
            c.push(self.exp(0)?);
        }
        Ok(self.node(Kd::ExpList, a, c, m))
    }
    fn suffixed(&mut self) -> R<N> {
        let a = self.i;
        let prim = if self.at("(") {
            self.i += 1;
            let e = self.exp(0)?;
            let r = self.want(")")?;
            self.node(Kd::Paren, a, vec![e], vec![a, r])
        } else {
            self.name()?
        };
        let mut c = vec![prim];
        loop {
            let s = self.i;
            if self.at(".") {
                self.i += 1;
                let n = self.name()?;
                c.push(self.node(Kd::Member, s, vec![n], vec![s]));
            } else if self.at("[") {
                self.i += 1;
                let e = self.exp(0)?;
                let r = self.want("]")?;
                c.push(self.node(Kd::Index, s, vec![e], vec![s, r]));
            } else if self.at(":") {
                self.i += 1;
                let n = self.name()?;
                match self.args()? {
                    Some(x) => c.push(self.node(Kd::Method, s, vec![n, x], vec![s])),
                    None => return Err("arguments expected".into()),
                }
            } else {
                match self.args()? {
                    Some(x) => c.push(x),
                    None => break,
                }
            }
        }
        if c.len() == 1 {
            return Ok(c.pop().unwrap());
        }
        Ok(self.node(Kd::Suffixed, a, c, vec![]))
    }
    fn args(&mut self) -> R<Option<N>> {
        let s = self.i;
        if self.at("(") {
            self.i += 1;
            let mut c = vec![];
            if !self.at(")") {
                c.push(self.explist()?);
            }
            let r = self.want(")")?;
            return Ok(Some(self.node(Kd::Args, s, c, vec![s, r])));
        }
        if self.at("{") {
            let t = self.table()?;
            return Ok(Some(self.node(Kd::ArgTable, s, vec![t], vec![])));
        }
        if self.at_k(K::Str) || self.at_k(K::LongStr) {
            self.i += 1;
            return Ok(Some(self.node(Kd::ArgStr, s, vec![], vec![])));
        }
        Ok(None)
    }
    fn table(&mut self) -> R<N> {
        let a = self.want("{")?;
        let mut m = vec![a];
        let mut c = vec![];
        while !self.at("}") {
            let f = self.i;
            if self.at("[") {
                self.i += 1;
                let k = self.exp(0)?;
                let r = self.want("]")?;
                let q = self.want("=")?;
                let v = self.exp(0)?;
                c.push(self.node(Kd::FieldBracket, f, vec![k, v], vec![f, r, q]));
            } else if self.at_k(K::Name)
                && self.t.get(self.i + 1).map(|t| t.k == K::Op && t.s == "=").unwrap_or(false)
            {
                let n = self.name()?;
                let q = self.want("=")?;
                let v = self.exp(0)?;
                c.push(self.node(Kd::FieldNamed, f, vec![n, v], vec![q]));
            } else {
                let v = self.exp(0)?;
                c.push(self.node(Kd::FieldSeq, f, vec![v], vec![]));
            }
            if self.at(",") || self.at(";") {
                m.push(self.i);
                self.i += 1;
            } else {
                break;
            }
        }
        m.push(self.want("}")?);
        Ok(self.node(Kd::Table, a, c, m))
    }
    fn simple(&mut self) -> R<N> {
        let a = self.i;
        let t = match self.t.get(a) {
            Some(t) => t,
            None => return Err("unexpected end".into()),
        };
        match t.k {
            K::Num | K::Str | K::LongStr => {
                self.i += 1;
                Ok(self.node(Kd::Lit, a, vec![], vec![]))
            }
            K::Kw if matches!(&t.s[..], "nil" | "true" | "false") => {
                self.i += 1;
                Ok(self.node(Kd::Lit, a, vec![], vec![]))
            }
            K::Kw if t.s == "function" => {
                self.i += 1;
                let b = self.body()?;
                Ok(self.node(Kd::FuncExpr, a, vec![b], vec![a]))
            }
            K::Op if t.s == "..." => {
                self.i += 1;
                Ok(self.node(Kd::Lit, a, vec![], vec![]))
            }
            K::Op if t.s == "{" => self.table(),
            _ => self.suffixed(),
        }
    }
    fn binop(&self) -> Option<(u32, u32)> {
        let t = self.t.get(self.i)?;
        if t.k != K::Op && t.k != K::Kw {
            return None;
        }
        Some(match &t.s[..] {
            "or" => (1, 1),
            "and" => (2, 2),
            "<" | ">" | "<=" | ">=" | "~=" | "==" => (3, 3),
            "|" => (4, 4),
            "~" => (5, 5),
            "&" => (6, 6),
            "<<" | ">>" => (7, 7),
            ".." if self.left => (9, 9),
            ".." => (9, 8),
            "+" | "-" => (10, 10),
            "*" | "/" | "//" | "%" => (11, 11),
            "^" if self.left => (14, 14),
            "^" => (14, 13),
            _ => return None,
        })
    }
    fn exp(&mut self, limit: u32) -> R<N> {
        let a = self.i;
        let mut l = match self.t.get(a) {
            Some(t)
                if (t.k == K::Op && matches!(&t.s[..], "-" | "#" | "~")) || (t.k == K::Kw && t.s == "not") =>
            {
                self.i += 1;
                if self.pin && self.t[a].s == "-" && self.at("-") {
                    return Err("repeated minus".into());
                }
                let e = self.exp(if self.left && limit >= 14 { 14 } else { 12 })?;
                self.node(Kd::Un, a, vec![e], vec![a])
            }
            _ => self.simple()?,
        };
        while let Some((lp, rp)) = self.binop() {
            if lp <= limit {
                break;
            }
            let op = self.i;
            self.i += 1;
            let r = self.exp(rp)?;
            l = self.node(Kd::Bin, a, vec![l, r], vec![op]);
        }
        Ok(l)
    }
}
