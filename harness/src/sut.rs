//! Access to the code under test.

use crate::engine::{panic_msg, Ctx};
use crate::lualex::{self, Lexed, K};
use crate::luaparse::{self, Kd, N};
use luafmt::config::Config;
use luafmt::formatter::{process_buffer_with_config, FormatterError};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static QUIET: Cell<bool> = Cell::new(false);
}

/// Panics of the code under test are caught and judged; only the harness's own panics are printed.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            old(i)
        }
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|e| panic_msg(&e))
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out {
    Ok(String),
    ParseErr(String),
    FmtErr(String),
    Panic(String),
}

pub fn fmt(ctx: &mut Ctx, src: &str, cfg: &Config) -> Out {
    ctx.runs += 1;
    let s = src.to_string();
    match guarded(|| process_buffer_with_config(&s, cfg, false)) {
        Err(p) => Out::Panic(p),
        Ok(Ok(o)) => Out::Ok(o),
        Ok(Err(FormatterError::ParsingError(e))) => Out::ParseErr(e),
        Ok(Err(e)) => Out::FmtErr(format!("{}", e).chars().take(300).collect()),
    }
}

/// A program with its reference token list and tree.
pub struct Parsed {
    pub src: String,
    pub lx: Lexed,
    pub tree: N,
}

pub fn parse(src: &str) -> Result<Parsed, String> {
    let lx = lualex::lex(src)?;
    let tree = luaparse::parse(&lx.toks, false)?;
    Ok(Parsed { src: src.to_string(), lx, tree })
}

/// Token texts with the freedom the options give removed: every field separator becomes `,` and trailing ones go;
/// with `values` quoted strings are replaced by the bytes they denote.
pub fn canonical_tokens(p: &Parsed, values: bool) -> Vec<String> {
    let n = p.lx.toks.len();
    let mut drop = vec![false; n];
    let mut sep = vec![false; n];
    p.tree.walk(&mut |x| {
        if x.k == Kd::Table {
            let inner = &x.m[1..x.m.len() - 1];
            for i in inner {
                sep[*i] = true;
            }
            if inner.len() == x.c.len() && !inner.is_empty() {
                drop[*inner.last().unwrap()] = true;
            }
        }
    });
    let mut out = vec![];
    for (i, t) in p.lx.toks.iter().enumerate() {
        if drop[i] {
            continue;
        }
        if sep[i] {
            out.push(",".to_string());
        } else if t.k == K::Str && values {
            out.push(format!("S{:?}", lualex::decode_string(&t.s)));
        } else {
            out.push(t.s.clone());
        }
    }
    out
}

pub fn first_diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    format!(
        "first difference at token {}: expected {:?}, got {:?} (lengths {} and {})",
        i,
        a.get(i),
        b.get(i),
        a.len(),
        b.len()
    )
}
