//! Reference lexer for Lua 5.3, written from the reference manual (section 3.1), independent of luafmt.
//! Every byte of the input belongs to exactly one item; items carry byte spans.

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum K {
    Name,
    Kw,
    Num,
    Str,     // '...' or "..."
    LongStr, // [[...]]
    Op,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tok {
    pub k: K,
    pub s: String,
    pub start: usize,
    pub end: usize,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Comment {
    /// None: `--text` up to the end of line; Some(level): long comment
    pub level: Option<usize>,
    pub text: String,
    pub start: usize,
    pub end: usize,
    /// index of the token that follows it (= number of tokens before it)
    pub gap: usize,
}

#[derive(Debug, Clone, Default)]
pub struct Lexed {
    pub shebang: Option<String>,
    pub toks: Vec<Tok>,
    pub comments: Vec<Comment>,
}

pub const KEYWORDS: &[&str] = &[
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil",
    "not", "or", "repeat", "return", "then", "true", "until", "while",
];

pub fn is_kw(s: &str) -> bool {
    KEYWORDS.contains(&s)
}

/// `lenient`: additionally accept what luafmt is known to let through although Lua does not
/// (raw line breaks inside quoted strings). Used only to decide what luafmt must *reject*.
pub fn lex_mode(src: &str, lenient: bool) -> Result<Lexed, String> {
    let mut out = Lexed::default();
    lex_into(src, lenient, &mut out).map_err(|e| e.1)?;
    Ok(out)
}

/// the tokens up to the first lexical error, and the place and kind of that error
pub fn lex_start(src: &str) -> (Lexed, Option<(usize, String)>) {
    let mut out = Lexed::default();
    let e = lex_into(src, true, &mut out).err();
    (out, e)
}

fn lex_into(src: &str, lenient: bool, out: &mut Lexed) -> Result<(), (usize, String)> {
    let b = src.as_bytes();
    let n = b.len();
    let mut i = 0;

    if n > 0 && b[0] == b'#' {
        let e = src.find('\n').unwrap_or(n);
        out.shebang = Some(src[..e].to_string());
        i = e;
    }

    while i < n {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c => i += 1,
            b'-' if i + 1 < n && b[i + 1] == b'-' => {
                let start = i;
                i += 2;
                if let Some(level) = long_open(b, i) {
                    let body = i + 2 + level;
                    let (e, after) = long_close(b, body, level).ok_or((start, "unfinished long comment".to_string()))?;
                    out.comments.push(Comment {
                        level: Some(level),
                        text: src[body..e].to_string(),
                        start,
                        end: after,
                        gap: out.toks.len(),
                    });
                    i = after;
                } else {
                    let e = src[i..].find('\n').map(|x| x + i).unwrap_or(n);
                    out.comments.push(Comment {
                        level: None,
                        text: src[i..e].to_string(),
                        start,
                        end: e,
                        gap: out.toks.len(),
                    });
                    i = e;
                }
            }
            b'[' if long_open(b, i).is_some() => {
                let level = long_open(b, i).unwrap();
                let (_, after) = long_close(b, i + 2 + level, level).ok_or((i, "unfinished long string".to_string()))?;
                out.toks.push(Tok { k: K::LongStr, s: src[i..after].to_string(), start: i, end: after });
                i = after;
            }
            b'\'' | b'"' => {
                let start = i;
                i += 1;
                loop {
                    if i >= n {
                        return Err((start, "unfinished string".into()));
                    }
                    if b[i] == c {
                        i += 1;
                        break;
                    }
                    match b[i] {
                        b'\n' | b'\r' if !lenient => return Err((start, "line break in string".into())),
                        b'\\' => {
                            i += 1;
                            if i >= n {
                                return Err((start, "unfinished string".into()));
                            }
                            if b[i] == b'z' {
                                i += 1;
                                while i < n && b[i].is_ascii_whitespace() {
                                    i += 1;
                                }
                            } else if b[i] == b'\r' && i + 1 < n && b[i + 1] == b'\n' {
                                i += 2;
                            } else {
                                i += 1;
                                while i < n && (b[i] & 0xC0) == 0x80 {
                                    i += 1;
                                }
                            }
                        }
                        _ => i += 1,
                    }
                }
                let s = &src[start..i];
                if !lenient {
                    decode_string(s).map_err(|e| (start, e))?;
                }
                out.toks.push(Tok { k: K::Str, s: s.to_string(), start, end: i });
            }
            b'0'..=b'9' | b'.' if c != b'.' || (i + 1 < n && b[i + 1].is_ascii_digit()) => {
                let start = i;
                let mut expo: [u8; 2] = [b'e', b'E'];
                if c == b'0' && i + 1 < n && (b[i + 1] == b'x' || b[i + 1] == b'X') {
                    expo = [b'p', b'P'];
                    i += 2;
                }
                while i < n {
                    if b[i] == expo[0] || b[i] == expo[1] {
                        i += 1;
                        if i < n && (b[i] == b'-' || b[i] == b'+') {
                            i += 1;
                        }
                    } else if b[i].is_ascii_hexdigit() || b[i] == b'.' {
                        i += 1;
                    } else {
                        break;
                    }
                }
                while i < n && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1; // forces an error below
                }
                let s = &src[start..i];
                if !valid_numeral(s) {
                    return Err((start, format!("malformed number `{}`", s)));
                }
                out.toks.push(Tok { k: K::Num, s: s.to_string(), start, end: i });
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let start = i;
                while i < n && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let s = &src[start..i];
                let k = if is_kw(s) { K::Kw } else { K::Name };
                out.toks.push(Tok { k, s: s.to_string(), start, end: i });
            }
            _ => {
                const OPS: &[&str] = &[
                    "...", "..", "<<", ">>", "//", "==", "~=", "<=", ">=", "::", "+", "-", "*", "/", "%", "^", "#",
                    "&", "~", "|", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", ".",
                ];
                let rest = &b[i..];
                let op = OPS.iter().find(|o| rest.starts_with(o.as_bytes()));
                match op {
                    Some(o) => {
                        out.toks.push(Tok { k: K::Op, s: o.to_string(), start: i, end: i + o.len() });
                        i += o.len();
                    }
                    None => return Err((i, format!("unexpected symbol at byte {}", i))),
                }
            }
        }
    }
    Ok(())
}

pub fn lex(src: &str) -> Result<Lexed, String> {
    lex_mode(src, false)
}

fn long_open(b: &[u8], i: usize) -> Option<usize> {
    if i < b.len() && b[i] == b'[' {
        let mut j = i + 1;
        while j < b.len() && b[j] == b'=' {
            j += 1;
        }
        if j < b.len() && b[j] == b'[' {
            return Some(j - i - 1);
        }
    }
    None
}

fn long_close(b: &[u8], from: usize, level: usize) -> Option<(usize, usize)> {
    let mut i = from;
    while i < b.len() {
        if b[i] == b']' {
            let mut j = i + 1;
            while j < b.len() && b[j] == b'=' {
                j += 1;
            }
            if j - i - 1 == level && j < b.len() && b[j] == b']' {
                return Some((i, j + 1));
            }
        }
        i += 1;
    }
    None
}

pub fn valid_numeral(s: &str) -> bool {
    let lower = s.to_ascii_lowercase();
    let (hex, body) = match lower.strip_prefix("0x") {
        Some(r) => (true, r),
        None => (false, &lower[..]),
    };
    let is_digit = |c: char| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
    let e = if hex { 'p' } else { 'e' };
    let (mant, exp) = match body.find(e) {
        Some(p) => (&body[..p], Some(&body[p + 1..])),
        None => (body, None),
    };
    let dots = mant.matches('.').count();
    let digits = mant.chars().filter(|c| is_digit(*c)).count();
    if dots > 1 || digits == 0 || digits + dots != mant.chars().count() {
        return false;
    }
    match exp {
        None => true,
        Some(x) => {
            let d = x.strip_prefix('+').or_else(|| x.strip_prefix('-')).unwrap_or(x);
            !d.is_empty() && d.chars().all(|c| c.is_ascii_digit())
        }
    }
}

/// The bytes denoted by a quoted string literal (including its quotes), per section 3.1.
pub fn decode_string(lit: &str) -> Result<Vec<u8>, String> {
    let b = lit.as_bytes();
    let n = b.len() - 1;
    let mut out = Vec::new();
    let mut i = 1;
    while i < n {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        let c = b[i];
        i += 1;
        match c {
            b'a' => out.push(7),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'n' => out.push(10),
            b'r' => out.push(13),
            b't' => out.push(9),
            b'v' => out.push(11),
            b'\\' | b'"' | b'\'' => out.push(c),
            b'\n' => {
                out.push(10);
                if i < n && b[i] == b'\r' {
                    i += 1;
                }
            }
            b'\r' => {
                out.push(10);
                if i < n && b[i] == b'\n' {
                    i += 1;
                }
            }
            b'z' => {
                while i < n && b[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            b'x' => {
                if i + 2 > n {
                    return Err("bad \\x".into());
                }
                let h = std::str::from_utf8(&b[i..i + 2]).map_err(|_| "bad \\x")?;
                out.push(u8::from_str_radix(h, 16).map_err(|_| "bad \\x")?);
                i += 2;
            }
            b'u' => {
                if i >= n || b[i] != b'{' {
                    return Err("bad \\u".into());
                }
                let e = (i..n).find(|j| b[*j] == b'}').ok_or("bad \\u")?;
                let h = std::str::from_utf8(&b[i + 1..e]).map_err(|_| "bad \\u")?;
                let v = u32::from_str_radix(h, 16).map_err(|_| "bad \\u")?;
                let ch = char::from_u32(v).ok_or("bad \\u")?;
                let mut buf = [0; 4];
                out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                i = e + 1;
            }
            b'0'..=b'9' => {
                let mut v = (c - b'0') as u32;
                let mut k = 1;
                while k < 3 && i < n && b[i].is_ascii_digit() {
                    v = v * 10 + (b[i] - b'0') as u32;
                    i += 1;
                    k += 1;
                }
                if v > 255 {
                    return Err("decimal escape too large".into());
                }
                out.push(v as u8);
            }
            _ => return Err("invalid escape".into()),
        }
    }
    Ok(out)
}
