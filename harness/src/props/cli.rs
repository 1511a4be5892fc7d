//! The command-line program and the configuration sources. The program runs as an unprivileged user in a scratch
//! directory of its own, which is all it can write to.

use super::text::FIXED;
use super::{cost, Fixed, Prop};
use crate::cfggen::{self, Cfg, Ty, OPTIONS};
use crate::engine::{Ctx, Outcome, Src};
use crate::gen::{self, Opts};
use crate::sut::{self, fmt, guarded, Out};
use luafmt::config::Config;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::{chown, symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

use Outcome::*;

pub fn props() -> Vec<Prop> {
    let p = |id, name, f, fixed: Vec<Fixed>, quick, rule| Prop { id, name, f, fixed, probe: None, quick, thorough: quick * 20, rule };
    vec![
        p("P19", "config-file", config_file, vec![], 150000,
          "generated configuration files (options in any order, repeated, invalid, unknown; every way to quote and to escape; comments, other Lua code) x settings made before; the loaded settings are compared with those set one by one; non-trivial: at least 2 options are set"),
        p("P20", "command-line-options", options, vec![], 12000,
          "argument lists (valid, invalid, unknown, repeated options, flags) for the program reading stdin; its output is compared with the library under the same settings; non-trivial: at least 2 valid options and an output that differs from the input"),
        p("P21", "config-discovery", discovery, vec![], 15000,
          "generated directory trees with configuration files at several levels x arguments; non-trivial: at least one file is formatted with a configuration from an ancestor directory that is not its own, or two files with different ones"),
        p("P22", "file-selection", selection, vec![], 15000,
          "generated directory trees (nested directories, all sorts of names, links) x path arguments x -r; non-trivial: at least 2 files selected and one left out"),
        p("P23", "in-place", in_place, vec![], 15000,
          "generated directory trees with good, invalid, unreadable, read-only and non-UTF-8 files x arguments with and without -i; the whole tree is compared before and after; non-trivial: at least one file changed and one failed"),
        p("P24", "entry-points-agree", entry_points, fixed_entry(), 3000,
          "one text (valid or damaged program, or arbitrary bytes) and one configuration through the library, stdin, file, in-place, verbose and configuration-file runs; non-trivial: the text is formatted and changed"),
    ]
}

// ---------------------------------------------------------------------------------------------------------------
// running the program

const NOBODY: u32 = 65534;

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn geteuid() -> u32;
}

struct Env {
    dir: PathBuf,
    bin: PathBuf,
    /// the program can run as another user
    drop: bool,
}

static ENV: OnceLock<Env> = OnceLock::new();
/// pid and deadline of the program each worker runs
static KIDS: [(AtomicU64, AtomicU64); 64] = [const { (AtomicU64::new(0), AtomicU64::new(0)) }; 64];

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

fn env() -> &'static Env {
    ENV.get_or_init(|| {
        let tmp = std::env::temp_dir();
        for d in tmp.canonicalize().expect("temporary directory").ancestors() {
            for e in fs::read_dir(d).into_iter().flatten().flatten() {
                if e.file_name().to_string_lossy().starts_with(".luafmt") {
                    panic!("{} is in the way", e.path().display());
                }
            }
        }
        let dir = tmp.join(format!("luafmt-verif-{}", std::process::id()));
        fs::create_dir_all(&dir).expect("scratch directory");
        fs::set_permissions(&dir, fs::Permissions::from_mode(0o755)).unwrap();
        let from = std::env::current_exe().unwrap().with_file_name("luafmt");
        let bin = dir.join("luafmt");
        fs::copy(&from, &bin).expect("luafmt program");
        fs::set_permissions(&bin, fs::Permissions::from_mode(0o755)).unwrap();
        let drop = unsafe { geteuid() } == 0
            && Command::new(&bin).env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).uid(NOBODY).gid(NOBODY).status().is_ok();
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (pid, until) in KIDS.iter() {
                let (p, u) = (pid.load(Ordering::SeqCst), until.load(Ordering::SeqCst));
                if p != 0 && now() > u {
                    unsafe { kill(p as i32, 9) };
                }
            }
        });
        Env { dir, bin, drop }
    })
}

/// removes the scratch directory
pub fn cleanup() {
    if let Some(e) = ENV.get() {
        let _ = fs::remove_dir_all(&e.dir);
    }
}

struct Ran {
    out: Vec<u8>,
    err: String,
    /// why this is no proper end of a run
    bad: Option<String>,
}

fn run(ctx: &mut Ctx, root: &Path, args: &[String], stdin: Option<&[u8]>) -> Ran {
    ctx.runs += 1;
    let e = env();
    let mut c = Command::new(&e.bin);
    c.args(args).current_dir(root).env_clear();
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    if e.drop {
        c.uid(NOBODY).gid(NOBODY);
    }
    let mut kid = c.spawn().expect("luafmt program");
    KIDS[ctx.worker].1.store(now() + 90, Ordering::SeqCst);
    KIDS[ctx.worker].0.store(kid.id() as u64, Ordering::SeqCst);
    let text = stdin.map(|x| x.to_vec());
    let pipe = kid.stdin.take();
    let o = std::thread::scope(|sc| {
        if let (Some(mut p), Some(t)) = (pipe, text) {
            if t.len() < 30000 {
                let _ = p.write_all(&t);
            } else {
                sc.spawn(move || {
                    let _ = p.write_all(&t);
                });
            }
        }
        kid.wait_with_output().expect("luafmt program")
    });
    KIDS[ctx.worker].0.store(0, Ordering::SeqCst);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let bad = match (o.status.signal(), o.status.code()) {
        (Some(9), _) => Some("the program did not end within 90 s".to_string()),
        (Some(s), _) => Some(format!("the program died of signal {}: {}", s, err)),
        (_, Some(101)) => Some(format!("the program panicked: {}", err)),
        _ => None,
    };
    Ran { out: o.stdout, err, bad }
}

fn scratch(ctx: &Ctx) -> PathBuf {
    let e = env();
    let d = e.dir.join(format!("w{}", ctx.worker));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch directory");
    own(&d);
    d
}

fn own(p: &Path) {
    if env().drop {
        chown(p, Some(NOBODY), Some(NOBODY)).expect("owner of a scratch file");
    }
}

// ---------------------------------------------------------------------------------------------------------------
// pieces

/// is the value text one the option takes?
fn valid_value(name: &str, v: &str) -> Option<bool> {
    if name == "line_range" {
        let (a, b) = match v.split_once(':') {
            Some(x) => x,
            None => return Some(false),
        };
        let num = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) && s.parse::<u64>().is_ok();
        return Some(num(a) && num(b));
    }
    let ty = OPTIONS.iter().find(|o| o.0 == name)?.1;
    Some(match ty {
        Ty::Bool => v == "true" || v == "false",
        Ty::Text | Ty::Sep => true,
        Ty::Num | Ty::Width => v.bytes().all(|c| c.is_ascii_digit()) && v.parse::<u64>().is_ok(),
    })
}

const UNKNOWN: &[&str] = &["foo", "max_widt", "Newline_format_if", "newline_format_if_", "hint", "indentation", "recursive", "i", "x1"];

fn a_value(s: &mut Src, name: &str) -> String {
    if name == "line_range" {
        return s.pick(&["1:3", "2:2", "0:0", "5:1", "1:1000000", "1", "a:b", "1:2:3", " 1:2", "-1:2", "1:99999999999999999999999"]).to_string();
    }
    let ty = OPTIONS.iter().find(|o| o.0 == name).map(|o| o.1).unwrap_or(Ty::Bool);
    if s.chance(1, 6) {
        s.pick(&["yes", "", "True", "TRUE", "1", "-1", "1.5", "99999999999999999999", " 1", "1 ", "nil", "0x1", "a=b", "true "]).to_string()
    } else {
        cfggen::gen_value(s, ty)
    }
}

/// settings as someone would pass them, possibly with mistakes
fn settings(s: &mut Src, lo: usize, hi: usize) -> Vec<(String, String)> {
    let mut v = vec![];
    let hi = if s.chance(1, 30) { 60 } else { hi };
    for _ in 0..s.range(lo, hi) {
        let name = match s.weighted(&[20, 1, 2]) {
            0 => s.pick_c(OPTIONS).0,
            1 => "line_range",
            _ => s.pick(UNKNOWN),
        };
        let val = a_value(s, name);
        v.push((name.to_string(), val));
    }
    // repeated options
    if v.len() > 1 && s.chance(1, 3) {
        let k = s.below(v.len());
        let name = v[k].0.clone();
        let val = a_value(s, &name);
        v.push((name, val));
    }
    v
}

/// the settings with everything that has no effect left out
fn effective(v: &[(String, String)]) -> Cfg {
    let mut c = Cfg::default();
    for (n, x) in v {
        if valid_value(n, x) == Some(true) {
            c.set(n, x);
        }
    }
    c
}

/// a program which is cheap to format under any configuration
fn text(s: &mut Src) -> String {
    let p = gen::gen_prog(s, &Opts { stats: 3, block_depth: 2, exp_depth: 2, ..Opts::default() }).render();
    match sut::parse(&p) {
        Ok(x) if cost(&x.tree) < 2000.0 => p,
        _ => "local x = { 1,2 }\n\nif x then f( x ) end".to_string(),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// P19

/// a Lua literal for a text
fn literal(s: &mut Src, v: &str, plain: bool) -> String {
    if plain && (v == "true" || v == "false" || (!v.is_empty() && v.bytes().all(|c| c.is_ascii_digit()))) && !s.chance(1, 8) {
        return v.to_string();
    }
    let q = if s.chance(1, 2) { '\'' } else { '"' };
    let mut r = String::from(q);
    let cs: Vec<char> = v.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        let digit_follows = cs.get(i + 1).map(|c| c.is_ascii_digit()).unwrap_or(false);
        let must = c == q || c == '\\' || c == '\n' || c == '\r';
        let name = "\x07\x08\x0c\n\r\t\x0b\\\"'".find(c).map(|k| "abfnrtv\\\"'".as_bytes()[k] as char);
        if must || s.chance(1, 4) {
            match (s.below(4), name) {
                (0, Some(n)) | (3, Some(n)) => {
                    r.push('\\');
                    r.push(n);
                }
                (1, _) if c.is_ascii() && !digit_follows => r.push_str(&format!("\\{}", c as u32)),
                (2, _) if c.is_ascii() => r.push_str(&if s.chance(1, 2) { format!("\\x{:02x}", c as u32) } else { format!("\\x{:02X}", c as u32) }),
                _ if c.is_ascii() => r.push_str(&format!("\\{:03}", c as u32)),
                _ => r.push(c),
            }
        } else {
            r.push(c);
        }
    }
    r.push(q);
    r
}

/// Lua code which sets no option
fn noise(s: &mut Src) -> String {
    let name = s.pick_c(OPTIONS).0;
    match s.below(8) {
        0 => format!("local {} = 1\n", name),
        1 => format!("local function f() {} = true end\n", name),
        2 => format!("t.{} = 7\n", name),
        3 => format!("-- {} = true\n", name),
        4 => format!("--[[ {} = 2 ]]\n", name),
        5 => "print('x')\n".to_string(),
        6 => "\n\n".to_string(),
        _ => format!("t[\"{}\"] = 'x'\n", name),
    }
}

fn config_text(s: &mut Src, set: &[(String, String)], plain: bool) -> String {
    let mut t = String::new();
    if s.chance(1, 10) {
        t.push_str("#!/usr/bin/env lua\n");
    }
    for (n, v) in set {
        if s.chance(1, 4) {
            t.push_str(&noise(s));
        }
        t.push_str(s.pick(&["", "", "  ", "\t", "--c\n"]));
        t.push_str(n);
        t.push_str(s.pick(&[" ", " ", "", "\t", "--[[c]]", "\n", " -- c\n"]));
        t.push('=');
        t.push_str(s.pick(&[" ", " ", "", "\n", "--[=[c]=]", " --c\n"]));
        t.push_str(&literal(s, v, plain));
        t.push_str(s.pick(&["\n", "\n", "\r\n", ";", " ", " -- c\n", " --[[ x = 1 ]] ", "; ;\n"]));
    }
    if s.chance(1, 4) {
        t.push_str(&noise(s));
    }
    if s.chance(1, 8) {
        t.push_str("return 1");
    }
    t
}

const TEXTS: &[&str] = &[" ", "", "\t", "    ", "\n", "\\", "\"", "'", "é", "a'b\"c", "\\n", "日本 1", "\u{b}1", "0", "--", "]]", "\r\n", "9\t9",
    "\u{c}", "\u{7}\u{8}", "\u{1}\u{1f}\u{7f}"];

/// any characters for an option that takes a text
fn odd_text(s: &mut Src, n: &str, v: &mut String) {
    if matches!(OPTIONS.iter().find(|o| o.0 == n), Some((_, Ty::Text)) | Some((_, Ty::Sep))) {
        *v = s.pick(TEXTS).to_string();
        // now and then longer ones
        if s.chance(1, 8) {
            let n = if s.chance(1, 8) { 300 } else { 20 };
            let n = s.range(1, n);
            *v = (0..n).map(|_| char::from_u32(s.range(1, 127) as u32).unwrap()).collect();
        }
    }
}

fn config_file(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let before = if s.chance(1, 2) { settings(s, 0, 4) } else { vec![] };
    let mut set = settings(s, 0, 10);
    for (n, v) in set.iter_mut() {
        if s.chance(1, 2) {
            odd_text(s, n, v);
        }
        // a number literal is no way to write these
        if n == "line_range" && s.chance(1, 2) {
            *v = "3:14".to_string();
        }
    }
    let src = config_text(s, &set, true);
    ctx.sizes.push(("settings", set.len()));
    ctx.sizes.push(("characters of a value", set.iter().map(|x| x.1.len()).max().unwrap_or(0)));
    ctx.desc = format!("set before: {:?}\nconfiguration file: {:?}", before, src);
    if sut::parse(&src).is_err() {
        panic!("invalid configuration file generated: {:?}", src);
    }
    let base = effective(&before).config();
    let dir = env().dir.join(format!("c{}", ctx.worker));
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(".luafmt.lua");
    fs::write(&path, &src).unwrap();
    ctx.runs += 1;
    let got = match guarded(|| base.reload_format_from_file(&path)) {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return Fail(format!("the configuration file is rejected: {}", e)),
        Err(p) => return Fail(format!("panic: {}", p)),
    };
    let all: Vec<_> = before.iter().chain(set.iter()).cloned().collect();
    let eff = effective(&all);
    let want = eff.config();
    if got != want {
        return Fail(format!("settings loaded: {}\nexpected:        {}", got, want));
    }
    if base != effective(&before).config() {
        return Fail("the settings made before were changed".to_string());
    }
    let shown: Vec<_> = eff.0.iter().filter(|(n, _)| n != "line_range").collect();
    if let Some(m) = display(&got, &shown) {
        return Fail(m);
    }
    if got.has_empty_format() != shown.is_empty() {
        return Fail(format!("has_empty_format is {} with {} format options set", got.has_empty_format(), shown.len()));
    }
    // what is no configuration file is reported
    if s.chance(1, 10) {
        let bad = format!("{}\n{}", src, s.pick(&["x = = 1", "if", "x = 'a", "end", ")"]));
        fs::write(&path, &bad).unwrap();
        if !bad.contains("return 1") && sut::parse(&bad).is_err() {
            match guarded(|| base.reload_format_from_file(&path)) {
                Ok(Err(e)) if e.contains(".luafmt.lua") => {}
                r => return Fail(format!("invalid configuration file {:?}: {:?}", bad, r)),
            }
        }
    }
    Pass(eff.0.len() >= 2)
}

/// the verbose form of the settings lists exactly those which are set
fn display(c: &Config, want: &[&(String, String)]) -> Option<String> {
    let text = format!("{}", c);
    let mut got: Vec<String> = text.lines().filter(|l| l.starts_with('\t') && !l.starts_with("\tline_range")).map(|l| l.trim().to_string()).collect();
    let mut exp: Vec<String> = want
        .iter()
        .map(|(n, v)| match OPTIONS.iter().find(|o| o.0 == n).unwrap().1 {
            Ty::Text | Ty::Sep => format!("{}: {:?},", n, v),
            Ty::Bool => format!("{}: {},", n, v),
            _ => format!("{}: {},", n, v.parse::<u64>().unwrap()),
        })
        .collect();
    got.sort();
    exp.sort();
    if got != exp {
        return Some(format!("settings are shown as {:?}, expected {:?}", got, exp));
    }
    None
}

// ---------------------------------------------------------------------------------------------------------------
// P20

fn options(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let src = text(s);
    let mut set = settings(s, 0, 8);
    for (n, v) in set.iter_mut() {
        if s.chance(1, 4) {
            odd_text(s, n, v);
        }
    }
    let mut args: Vec<String> = set.iter().map(|(n, v)| format!("--{}={}", n, v)).collect();
    let mut strange = vec![];
    let mut verbose = false;
    for _ in 0..s.range(0, 3) {
        let a = match s.weighted(&[2, 2, 2, 1, 1, 3]) {
            0 => s.pick(&["-i", "--inplace", "--i", "-inplace"]).to_string(),
            1 => s.pick(&["-r", "--recursive", "--r"]).to_string(),
            2 if !verbose && s.chance(1, 3) => {
                verbose = true;
                s.pick(&["-v", "--verbose"]).to_string()
            }
            _ => {
                let x = s.pick(&["-x", "--foo", "--foo-bar=1", "-", "--", "-ir", "--max_width", "-max_width=3", "--I", "---r", "--=1"]).to_string();
                strange.push(x.clone());
                x
            }
        };
        let at = s.below(args.len() + 1);
        // the order of the settings among themselves is kept
        args.insert(at, a);
    }
    ctx.sizes.push(("arguments", args.len()));
    ctx.desc = format!("arguments: {:?}\nstdin: {:?}", args, src);
    let eff = effective(&set);
    let root = scratch(ctx);
    let r = run(ctx, &root, &args, Some(src.as_bytes()));
    if let Some(b) = r.bad {
        return Fail(b);
    }
    let want = match fmt(ctx, &src, &eff.config()) {
        Out::Ok(o) => o,
        Out::ParseErr(_) => return Skip("rejected by luafmt (see accepts-valid)"),
        Out::FmtErr(e) | Out::Panic(e) => return Fail(format!("library: {}", e)),
    };
    let got = String::from_utf8_lossy(&r.out).into_owned();
    let same = if verbose { got.ends_with(&want) && got.len() > want.len() } else { got == want };
    if !same {
        return Fail(format!("expected {:?}\ngot      {:?}\nstderr {:?}", want, got, r.err));
    }
    if verbose {
        for (n, _) in &eff.0 {
            if n != "line_range" && !got[..got.len() - want.len()].contains(&n[..]) {
                return Fail(format!("option {} is not shown by -v: {:?}", n, got));
            }
        }
    }
    let mut bad: Vec<String> = set.iter().filter(|(n, v)| valid_value(n, v) != Some(true)).map(|(n, _)| n.clone()).collect();
    bad.extend(strange);
    for b in &bad {
        if !r.err.contains(&b[..]) {
            return Fail(format!("no message about {:?}: {:?}", b, r.err));
        }
    }
    if bad.is_empty() && !r.err.is_empty() {
        return Fail(format!("unexpected message: {:?}", r.err));
    }
    if fs::read_dir(&root).unwrap().next().is_some() {
        return Fail("a file was written".to_string());
    }
    Pass(eff.0.len() >= 2 && want != src)
}

// ---------------------------------------------------------------------------------------------------------------
// directory trees

#[derive(Clone, Debug)]
enum Node {
    Dir,
    File(Vec<u8>, u32),
    /// to another entry
    Link(String),
}

#[derive(Clone, Default)]
struct Tree {
    nodes: BTreeMap<String, Node>,
    /// configuration files; None: invalid
    configs: BTreeMap<String, Option<Cfg>>,
}

const DIRS: &[&str] = &["d", "src", "dir.lua", ".hid", "with space", ".luafmt_d", "é", "a.b", "z", ".luafmt.lua", "-d"];
const FILES: &[&str] = &[
    "a.lua", "b.lua", "c.lua", "m.lua", "x.y.lua", ".hidden.lua", "A.LUA", "n.txt", "lua", "noext", "n.luac", "n.lua.bak", "sp ace.lua",
    "ü.lua", "luafmt.lua", "x.luafmt.lua", ".lua", "-m.lua", "conf.luafmt", "t.Lua", "..lua", "z9.lua",
];

impl Tree {
    fn add(&mut self, path: String, n: Node) -> bool {
        if self.nodes.contains_key(&path) {
            return false;
        }
        self.nodes.insert(path, n);
        true
    }
    fn dirs(&self) -> Vec<String> {
        let mut v = vec![String::new()];
        v.extend(self.nodes.iter().filter(|(_, n)| matches!(n, Node::Dir)).map(|(p, _)| p.clone()));
        v
    }
    fn show(&self) -> String {
        let mut t = String::new();
        for (p, n) in &self.nodes {
            match n {
                Node::Dir => t.push_str(&format!("  {}/\n", p)),
                Node::File(c, m) => t.push_str(&format!("  {} (mode {:o}): {:?}\n", p, m, String::from_utf8_lossy(c))),
                Node::Link(to) => t.push_str(&format!("  {} -> {}\n", p, to)),
            }
        }
        t
    }
    fn write(&self, root: &Path) {
        for (p, n) in &self.nodes {
            let at = root.join(p);
            match n {
                Node::Dir => {
                    fs::create_dir(&at).expect("scratch directory");
                    own(&at);
                }
                Node::File(c, m) => {
                    fs::write(&at, c).expect("scratch file");
                    fs::set_permissions(&at, fs::Permissions::from_mode(*m)).unwrap();
                    own(&at);
                }
                Node::Link(to) => symlink(root.join(to), &at).expect("scratch link"),
            }
        }
    }
}

fn join(d: &str, f: &str) -> String {
    if d.is_empty() {
        f.to_string()
    } else {
        format!("{}/{}", d, f)
    }
}

fn gen_dirs(s: &mut Src, t: &mut Tree, max: usize) {
    if s.chance(1, 12) {
        // one below the other
        let mut d = String::new();
        for _ in 0..s.range(3, 40) {
            d = join(&d, s.pick(DIRS));
            t.add(d.clone(), Node::Dir);
        }
    }
    for _ in 0..s.range(0, max) {
        let ds = t.dirs();
        let d = join(&s.pick_c(&ds), s.pick(DIRS));
        if d.matches('/').count() < 4 {
            t.add(d, Node::Dir);
        }
    }
}

fn gen_files(s: &mut Src, t: &mut Tree, lo: usize, hi: usize, content: fn(&mut Src) -> (Vec<u8>, u32)) {
    let ds = t.dirs();
    let many = s.chance(1, 40);
    for k in 0..s.range(lo, if many { 100 } else { hi }) {
        let d = s.pick_c(&ds);
        let f = match s.below(12) {
            0 => format!("{}.lua", "n".repeat(s.range(1, 200))),
            _ if many => format!("f{}.lua", k),
            x if x < 6 => FILES[s.below(5)].to_string(),
            _ => s.pick(FILES).to_string(),
        };
        let (c, m) = content(s);
        t.add(join(&d, &f), Node::File(c, m));
    }
}

fn gen_links(s: &mut Src, t: &mut Tree) {
    for k in 0..s.range(0, 2) {
        let all: Vec<String> = t.nodes.keys().cloned().collect();
        if all.is_empty() {
            return;
        }
        let to = if s.chance(1, 8) { "nowhere".to_string() } else { s.pick_c(&all) };
        let ds: Vec<String> = t.dirs();
        let d = s.pick_c(&ds);
        // no cycles: a link does not point to a directory around it, nor to another link, nor to a directory with a link
        let target = t.nodes.get(&to).cloned();
        match target {
            Some(Node::Link(_)) => continue,
            Some(Node::Dir) if (d.clone() + "/").starts_with(&(to.clone() + "/")) => continue,
            Some(Node::Dir) if t.nodes.iter().any(|(p, n)| matches!(n, Node::Link(_)) && p.starts_with(&(to.clone() + "/"))) => continue,
            _ => {}
        }
        // nor does a directory a link points to get a link
        if t.nodes.values().any(|n| matches!(n, Node::Link(l) if (d.clone() + "/").starts_with(&(l.clone() + "/")))) {
            continue;
        }
        t.add(join(&d, ["l.lua", "link", "l2.lua"][(k + s.below(2)) % 3]), Node::Link(to));
    }
}

fn gen_config(s: &mut Src, t: &mut Tree, dir: &str) {
    let name = join(dir, s.pick(&[".luafmt.lua", ".luafmt.lua", ".luafmt_x.lua", ".luafmt2.lua"]));
    if t.configs.keys().any(|c| c.rsplit_once('/').map(|x| x.0).unwrap_or("") == dir) || t.nodes.contains_key(&name) {
        return;
    }
    let mut cfg = Cfg::default();
    for _ in 0..s.range(1, 4) {
        let (n, ty) = s.pick_c(OPTIONS);
        let v = cfggen::gen_value(s, ty);
        cfg.set(n, &v);
    }
    if s.chance(1, 2) {
        let v = cfggen::gen_value(s, Ty::Text);
        cfg.set("indentation_string", &v);
    }
    cfg.make_safe();
    let (text, cfg) = if s.chance(1, 12) {
        ("indentation_string = = 1".to_string(), None)
    } else {
        let list: Vec<(String, String)> = cfg.0.clone();
        (config_text(s, &list, true), Some(cfg))
    };
    t.add(name.clone(), Node::File(text.into_bytes(), 0o644));
    t.configs.insert(name, cfg);
}

/// path arguments
fn gen_args(s: &mut Src, t: &Tree, root: &Path) -> Vec<String> {
    let all: Vec<String> = t.nodes.keys().cloned().collect();
    let mut v = vec![];
    let most = if s.chance(1, 30) { 30 } else { 3 };
    for _ in 0..s.range(1, most) {
        let p = match s.weighted(&[6, 2, 1]) {
            0 if !all.is_empty() => s.pick_c(&all),
            2 => "missing".to_string(),
            _ => ".".to_string(),
        };
        let p = match s.below(8) {
            0 => format!("./{}", p),
            1 => root.join(&p).to_string_lossy().into_owned(),
            2 if matches!(t.nodes.get(&p), Some(Node::Dir)) => format!("{}/", p),
            3 => match p.split_once('/') {
                Some((a, b)) if matches!(t.nodes.get(a), Some(Node::Dir)) => format!("{}/../{}/{}", a, a, b),
                _ => p,
            },
            _ => p,
        };
        v.push(if p.starts_with('-') { format!("./{}", p) } else { p });
    }
    v
}

/// the files a path argument stands for (in any order)
fn files_of(root: &Path, arg: &str, rec: bool) -> Option<Vec<PathBuf>> {
    fn walk(dir: &Path, rec: bool, out: &mut Vec<PathBuf>) {
        for e in fs::read_dir(dir).unwrap() {
            let name = e.unwrap().file_name().into_string().unwrap();
            let p = dir.join(&name);
            if p.is_dir() {
                if rec {
                    walk(&p, rec, out);
                }
            } else if p.is_file() && name.len() > 4 && name.ends_with(".lua") && !name.starts_with(".luafmt") {
                out.push(p);
            }
        }
    }
    let p = root.join(arg);
    let mut out = vec![];
    if p.is_dir() {
        walk(Path::new(&p), rec, &mut out);
    } else if p.is_file() {
        out.push(p);
    } else {
        return None;
    }
    Some(out)
}

enum Found {
    None,
    Invalid,
    Set(Cfg),
}

/// the configuration for a file: the one in the nearest directory around its real place
fn config_of(root: &Path, t: &Tree, file: &Path) -> Found {
    let real = file.canonicalize().unwrap();
    let root = root.canonicalize().unwrap();
    let rel = real.strip_prefix(&root).unwrap().to_str().unwrap().to_string();
    let mut dir = rel;
    loop {
        let up = match dir.rsplit_once('/') {
            Some((d, _)) => d.to_string(),
            None => String::new(),
        };
        for (c, cfg) in &t.configs {
            if c.rsplit_once('/').map(|x| x.0).unwrap_or("") == up {
                return match cfg {
                    Some(c) => Found::Set(c.clone()),
                    None => Found::Invalid,
                };
            }
        }
        if up.is_empty() {
            return Found::None;
        }
        dir = up;
    }
}

/// what becomes of one file
fn expect(ctx: &mut Ctx, root: &Path, t: &Tree, file: &Path, content: &[u8], mode: u32, cli: &Cfg) -> Result<String, &'static str> {
    if mode & 0o400 == 0 {
        return Err("unreadable");
    }
    let text = match String::from_utf8(content.to_vec()) {
        Ok(t) => t,
        Err(_) => return Err("not UTF-8"),
    };
    let cfg = if cli.0.iter().any(|(n, _)| n != "line_range") {
        cli.clone()
    } else {
        match config_of(root, t, file) {
            Found::None => return Err("no configuration"),
            Found::Invalid => return Err("invalid configuration"),
            Found::Set(mut c) => {
                if let Some(v) = cli.get("line_range") {
                    c.set("line_range", v);
                }
                c
            }
        }
    };
    match fmt(ctx, &text, &cfg.config()) {
        Out::Ok(o) => Ok(o),
        Out::ParseErr(_) => Err("invalid program"),
        Out::FmtErr(_) => Err("formatting error"),
        Out::Panic(_) => Err("panic"),
    }
}

/// is `text` a concatenation of the groups in order, each group in any order?
fn concat_of(text: &[u8], groups: &[Vec<String>]) -> bool {
    fn go(text: &[u8], groups: &[Vec<String>], used: &mut Vec<bool>, budget: &mut u32) -> bool {
        let g = match groups.first() {
            None => return text.is_empty(),
            Some(g) => g,
        };
        if used.len() != g.len() {
            *used = vec![false; g.len()];
        }
        if used.iter().all(|x| *x) {
            return go(text, &groups[1..], &mut vec![], budget);
        }
        if *budget == 0 {
            return true;
        }
        *budget -= 1;
        for i in 0..g.len() {
            if !used[i] && text.starts_with(g[i].as_bytes()) {
                used[i] = true;
                if go(&text[g[i].len()..], groups, used, budget) {
                    return true;
                }
                used.resize(g.len(), false);
                used[i] = false;
            }
        }
        false
    }
    go(text, groups, &mut vec![], &mut 100000)
}

struct Case<'a> {
    root: &'a Path,
    tree: &'a Tree,
    cli: &'a Cfg,
    args: &'a [String],
    paths: &'a [String],
    rec: bool,
    inplace: bool,
}

/// Runs the program over the tree; checks output, messages and the tree afterwards. Gives the number of formatted
/// files with their configuration's distance, of changed and of failed files.
#[derive(Default)]
struct Did {
    selected: usize,
    formatted: usize,
    changed: usize,
    failed: usize,
    far: usize,
}

fn snapshot(root: &Path) -> BTreeMap<String, (String, u32, Vec<u8>)> {
    fn go(d: &Path, root: &Path, m: &mut BTreeMap<String, (String, u32, Vec<u8>)>) {
        for e in fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let md = fs::symlink_metadata(&p).unwrap();
            let mode = md.permissions().mode() & 0o7777;
            if md.is_dir() {
                m.insert(rel, ("dir".into(), mode, vec![]));
                go(&p, root, m);
            } else if md.file_type().is_symlink() {
                m.insert(rel, (format!("link {}", fs::read_link(&p).unwrap().display()), 0, vec![]));
            } else {
                m.insert(rel, ("file".into(), mode, fs::read(&p).unwrap()));
            }
        }
    }
    let mut m = BTreeMap::new();
    go(root, root, &mut m);
    m
}

fn run_tree(ctx: &mut Ctx, c: &Case) -> Result<Did, String> {
    let mut did = Did::default();
    c.tree.write(c.root);
    let mut want = snapshot(c.root);
    let real_root = c.root.canonicalize().unwrap();
    let mut sorted = c.paths.to_vec();
    sorted.sort();
    let mut groups = vec![];
    let mut mentioned = vec![];
    for a in &sorted {
        let mut group = vec![];
        match files_of(c.root, a, c.rec) {
            None => mentioned.push(a.clone()),
            Some(fs) => {
                for f in fs {
                    did.selected += 1;
                    let rel = f.canonicalize().unwrap().strip_prefix(&real_root).unwrap().to_string_lossy().into_owned();
                    let (_, mode, content) = want[&rel].clone();
                    match expect(ctx, c.root, c.tree, &f, &content, mode, c.cli) {
                        Ok(o) => {
                            did.formatted += 1;
                            let dir = rel.rsplit_once('/').map(|x| x.0).unwrap_or("").to_string();
                            did.far += !c.tree.configs.keys().any(|k| k.rsplit_once('/').map(|x| x.0).unwrap_or("") == dir) as usize;
                            if c.inplace && mode & 0o200 == 0 {
                                did.failed += 1;
                                mentioned.push(f.file_name().unwrap().to_string_lossy().into_owned());
                            } else if c.inplace {
                                did.changed += (o.as_bytes() != &content[..]) as usize;
                                want.get_mut(&rel).unwrap().2 = o.into_bytes();
                            } else {
                                group.push(o);
                            }
                        }
                        Err("panic") | Err("formatting error") => return Err("library: panic or formatting error".to_string()),
                        Err(l) => {
                            ctx.label(l);
                            did.failed += 1;
                            mentioned.push(f.file_name().unwrap().to_string_lossy().into_owned());
                        }
                    }
                }
            }
        }
        groups.push(group);
    }
    let r = run(ctx, c.root, c.args, None);
    if let Some(b) = r.bad {
        return Err(b);
    }
    if !concat_of(&r.out, &groups) {
        return Err(format!("output {:?}\nexpected {:?} (each group in any order)\nstderr {:?}", String::from_utf8_lossy(&r.out), groups, r.err));
    }
    for m in &mentioned {
        if !r.err.contains(&m[..]) {
            return Err(format!("no message about {:?}: {:?}", m, r.err));
        }
    }
    if mentioned.is_empty() && !r.err.is_empty() {
        return Err(format!("unexpected message: {:?}", r.err));
    }
    let got = snapshot(c.root);
    if got != want {
        let d = want.iter().find(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| (k.clone(), Some(v.clone()), got.get(k).cloned()));
        let d = d.or_else(|| got.iter().find(|(k, _)| !want.contains_key(*k)).map(|(k, v)| (k.clone(), None, Some(v.clone()))));
        let show = |x: Option<(String, u32, Vec<u8>)>| match x {
            Some((k, m, c)) => format!("{} mode {:o} {:?}", k, m, String::from_utf8_lossy(&c)),
            None => "nothing".to_string(),
        };
        let (k, a, b) = d.unwrap();
        return Err(format!("after the run {:?} is {}\nexpected {}\nstderr {:?}", k, show(b), show(a), r.err));
    }
    Ok(did)
}

fn good(s: &mut Src) -> (Vec<u8>, u32) {
    (text(s).into_bytes(), 0o644)
}

fn mixed(s: &mut Src) -> (Vec<u8>, u32) {
    let drop = env().drop;
    match s.weighted(&[10, 2, 1, 1, 1, 1]) {
        0 => (text(s).into_bytes(), s.pick_c(&[0o644, 0o755, 0o600])),
        1 => (format!("{}\n{}", text(s), s.pick(&["x = = 1", "end", "x = 'a", ")", "--[[", "x = 1 1"])).into_bytes(), 0o644),
        2 => (b"x = '\xff\xfe'\n".to_vec(), 0o644),
        3 => (vec![], 0o644),
        4 => (text(s).into_bytes(), if drop { 0o444 } else { 0o644 }),
        _ => (text(s).into_bytes(), if drop { 0o200 } else { 0o644 }),
    }
}

fn tree_case(s: &mut Src, ctx: &mut Ctx, tree: &Tree, set: &[(String, String)], flags: &[&str]) -> Result<Did, String> {
    let root = scratch(ctx);
    let paths = gen_args(s, tree, &root);
    ctx.sizes.push(("files", tree.nodes.values().filter(|n| matches!(n, Node::File(..))).count()));
    ctx.sizes.push(("directories one below the other", tree.nodes.keys().map(|k| k.matches('/').count()).max().unwrap_or(0)));
    let mut args = paths.clone();
    for a in set.iter().map(|(n, v)| format!("--{}={}", n, v)).chain(flags.iter().map(|f| f.to_string())) {
        let at = s.below(args.len() + 1);
        args.insert(at, a);
    }
    let cli = effective(set);
    ctx.desc = format!("arguments: {:?}\ntree:\n{}", args, tree.show().replace(&*root.to_string_lossy(), "ROOT")).replace(&*root.to_string_lossy(), "ROOT");
    let rec = flags.iter().any(|f| f.contains('r'));
    let inplace = flags.iter().any(|f| *f == "-i" || *f == "--inplace");
    run_tree(ctx, &Case { root: &root, tree, cli: &cli, args: &args, paths: &paths, rec, inplace })
}

fn flags<'a>(s: &mut Src, p: (u64, u64)) -> Vec<&'a str> {
    let mut v = vec![];
    if s.chance(1, 2) {
        v.push(*s.pick_c(&[&"-r", &"--recursive"]));
    }
    if s.chance(p.0, p.1) {
        v.push(*s.pick_c(&[&"-i", &"--inplace"]));
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P21

fn discovery(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut t = Tree::default();
    gen_dirs(s, &mut t, 5);
    let share = if s.chance(1, 2) { 8 } else { 1 };
    for d in t.dirs() {
        if s.chance(2, 5) && (t.nodes.len() < 6 || s.chance(1, share)) {
            gen_config(s, &mut t, &d);
        }
    }
    gen_files(s, &mut t, 1, 4, good);
    if s.chance(1, 3) {
        gen_links(s, &mut t);
    }
    let mut set = vec![];
    if s.chance(1, 4) {
        set.push(("line_range".to_string(), s.pick(&["1:1", "2:3", "1:100"]).to_string()));
    }
    match s.below(6) {
        // a format option on the command line: no configuration file is looked for
        0 => set.push(("indentation_string".to_string(), "  ".to_string())),
        1 => set.push((s.pick_c(OPTIONS).0.to_string(), "true".to_string())),
        // mistakes count for nothing
        2 => {
            set.push(("max_width".to_string(), "wide".to_string()));
            let n = set.len();
            if effective(&set[..n]).0.is_empty() {
                ctx.label("only invalid options");
            }
        }
        _ => {}
    }
    let fl = flags(s, (1, 3));
    let bad = set.iter().any(|(n, v)| valid_value(n, v) != Some(true));
    if bad {
        // the message about it is expected by P20; here it would be an unexpected one
        set.retain(|(n, v)| valid_value(n, v) == Some(true));
    }
    match tree_case(s, ctx, &t, &set, &fl) {
        Ok(d) => Pass(d.far > 0 || d.formatted > 1),
        Err(e) => Fail(e),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// P22

fn selection(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut t = Tree::default();
    gen_dirs(s, &mut t, 6);
    gen_files(s, &mut t, 2, 10, |s| (format!("x = {}\n", s.below(1000)).into_bytes(), 0o644));
    for d in t.dirs() {
        if s.chance(1, 5) {
            gen_config(s, &mut t, &d);
        }
    }
    gen_links(s, &mut t);
    let set = vec![("indentation_string".to_string(), "  ".to_string())];
    let fl = flags(s, (1, 4));
    let d = match tree_case(s, ctx, &t, &set, &fl) {
        Ok(d) => d,
        Err(e) => return Fail(e),
    };
    // the library function
    let root = env().dir.join(format!("w{}", ctx.worker));
    for rec in [false, true] {
        for p in t.nodes.keys().chain([&String::new(), &"missing".to_string()]) {
            let mut want = files_of(&root, p, rec);
            let got = guarded(|| luafmt::file_util::get_path_files(&root.join(p), rec, "lua", luafmt::CFG_PREFIX));
            ctx.runs += 1;
            let mut got = match got {
                Ok(x) => x.ok(),
                Err(e) => return Fail(format!("panic: {}", e)),
            };
            got.iter_mut().for_each(|x| x.sort());
            want.iter_mut().for_each(|x| x.sort());
            if got != want {
                return Fail(format!("get_path_files({:?}, {}) gives {:?}, expected {:?}", p, rec, got, want));
            }
        }
    }
    Pass(d.selected >= 2 && d.selected < t.nodes.len())
}

// ---------------------------------------------------------------------------------------------------------------
// P23

fn in_place(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut t = Tree::default();
    gen_dirs(s, &mut t, 4);
    let from_file = s.chance(1, 2);
    if from_file {
        gen_config(s, &mut t, "");
        for d in t.dirs() {
            if s.chance(1, 4) {
                gen_config(s, &mut t, &d);
            }
        }
    }
    gen_files(s, &mut t, 1, 7, mixed);
    if s.chance(1, 3) {
        gen_links(s, &mut t);
    }
    let set: Vec<(String, String)> = if from_file {
        vec![]
    } else {
        let mut c = cfggen::gen_safe(s);
        if c.0.is_empty() {
            c = Cfg::shipped();
        }
        c.0
    };
    let fl = flags(s, (3, 4));
    match tree_case(s, ctx, &t, &set, &fl) {
        Ok(d) => Pass(d.failed > 0 && d.formatted > 0),
        Err(e) => Fail(e),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// P24

fn fixed_entry() -> Vec<Fixed> {
    let mut v: Vec<Fixed> = FIXED
        .iter()
        .filter(|(_, c)| c.iter().any(|o| o.0 != "line_range"))
        .map(|(src, cfg)| Box::new(move |ctx: &mut Ctx| judge_entry(ctx, src.as_bytes(), &Cfg::of(cfg))) as Fixed)
        .collect();
    v.push(Box::new(move |ctx: &mut Ctx| judge_entry(ctx, b"a = 1 --x\nb = 2", &Cfg::of(&[("hint_before_comment", "\n")]))));
    for bytes in [&b"x = '\xff'"[..], b"\xff\xfe", b"", b"x = = 1"] {
        v.push(Box::new(move |ctx: &mut Ctx| judge_entry(ctx, bytes, &Cfg::shipped())));
    }
    v
}

fn quoted(v: &str) -> String {
    let mut r = String::from("\"");
    for c in v.chars() {
        match c {
            '\\' | '"' => r.extend(['\\', c]),
            c if c.is_ascii_control() => r.push_str(&format!("\\{:03}", c as u32)),
            c => r.push(c),
        }
    }
    r + "\""
}

fn entry_points(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut src = match s.weighted(&[12, 1, 1]) {
        0 => gen::gen_prog(s, &Opts::default()).render().into_bytes(),
        1 => format!("{}\n{}", text(s), s.pick(&["x = = 1", "end", "x = 'a", ")", "--[[", "x = 1 1"])).into_bytes(),
        _ => {
            let mut v = text(s).into_bytes();
            let at = s.below(v.len() + 1);
            v.insert(at, s.range(128, 255) as u8);
            v
        }
    };
    if s.chance(1, 80) {
        // more than a pipe holds
        let big = src.clone();
        while src.len() < 70000 && !big.is_empty() {
            src.push(b'\n');
            src.extend_from_slice(&big);
        }
        if sut::parse(&String::from_utf8_lossy(&src)).is_err() {
            src = big;
        } else {
            ctx.label("large");
        }
    }
    if s.chance(1, 150) {
        // deeper than the stack of a thread usually allows
        let n = s.range(1000, 9000);
        let (open, leaf, close) = s.pick_c(&[
            ("", "", " + 1"),
            ("", "", "..'a'"),
            ("", "", "\n^ x"),
            ("(", "1", ")"),
            ("- -- c\n", "1", ""),
            ("not ", "nil", ""),
            ("", "", " < y and z"),
        ]);
        let leaf = if leaf.is_empty() { "x" } else { leaf };
        src = format!("return {}{}{}", open.repeat(n), leaf, close.repeat(n)).into_bytes();
        ctx.label("deep");
    }
    let mut cfg = cfggen::gen_raw(s);
    for (n, v) in cfg.0.iter_mut() {
        if s.chance(1, 10) {
            odd_text(s, n, v);
        }
    }
    if s.chance(1, 4) {
        let r = s.pick(&["1:1", "2:3", "1:100"]).to_string();
        cfg.set("line_range", &r);
    }
    if !cfg.0.iter().any(|(n, _)| n != "line_range") {
        cfg.set("indentation_string", "  ");
    }
    if let Ok(p) = sut::parse(&String::from_utf8_lossy(&src)) {
        super::tame(ctx, &p, &mut cfg);
        if !cfg.0.iter().any(|(n, _)| n != "line_range") {
            cfg.set("indentation_string", "  ");
        }
    }
    judge_entry(ctx, &src, &cfg)
}

fn judge_entry(ctx: &mut Ctx, src: &[u8], cfg: &Cfg) -> Outcome {
    let shown = if src.len() > 4000 { format!("{:?} ... ({} bytes)", String::from_utf8_lossy(&src[..4000]), src.len()) } else { format!("{:?}", String::from_utf8_lossy(src)) };
    ctx.desc = format!("config: {}\nsource: {}", cfg.show(), shown);
    let lib: Result<String, &str> = match std::str::from_utf8(src) {
        Err(_) => Err("not UTF-8"),
        Ok(t) => match fmt(ctx, t, &cfg.config()) {
            Out::Ok(o) => Ok(o),
            Out::ParseErr(_) => Err("invalid program"),
            Out::FmtErr(e) | Out::Panic(e) => return Fail(e),
        },
    };
    let root = scratch(ctx);
    let opts: Vec<String> = cfg.0.iter().map(|(n, v)| format!("--{}={}", n, v)).collect();
    let file = root.join("f.lua");
    let put = || {
        fs::write(&file, src).unwrap();
        own(&file);
    };
    put();
    let with = |more: &[&str]| opts.iter().cloned().chain(more.iter().map(|x| x.to_string())).collect::<Vec<_>>();

    // the library on the file
    ctx.runs += 1;
    let r = match guarded(|| luafmt::formatter::process_file(&file, &cfg.config(), false)) {
        Err(p) => return Fail(format!("process_file: panic: {}", p)),
        Ok(r) => r.map_err(|_| ()),
    };
    if r != lib.clone().map_err(|_| ()) {
        return Fail(format!("process_file gives {:?}\nthe library     {:?}", r, lib));
    }

    let conf = root.join(".luafmt.lua");
    for way in ["stdin", "stdin verbose", "file", "file verbose", "in place", "in place verbose", "configuration file"] {
        let stdin = way.starts_with("stdin");
        let inplace = way.starts_with("in place");
        let verbose = way.ends_with("verbose");
        put();
        let mut more = vec![];
        if verbose {
            more.push("-v");
        }
        if inplace {
            more.push("-i");
        }
        if !stdin {
            more.push("f.lua");
        }
        let mut args = with(&more);
        if way == "configuration file" {
            let mut t = String::new();
            for (n, v) in cfg.0.iter().filter(|(n, _)| n != "line_range") {
                t.push_str(&format!("{} = {}\n", n, quoted(v)));
            }
            fs::write(&conf, t).unwrap();
            args = vec!["f.lua".to_string()];
            args.extend(cfg.get("line_range").map(|v| format!("--line_range={}", v)));
        }
        let r = run(ctx, &root, &args, if stdin { Some(src) } else { None });
        if let Some(b) = r.bad {
            return Fail(format!("{}: {}", way, b));
        }
        let out = String::from_utf8_lossy(&r.out).into_owned();
        let left = fs::read(&file).unwrap();
        let m = match &lib {
            Ok(want) => {
                let file_ok = if inplace { left == want.as_bytes() } else { left == src };
                let out_ok = match (inplace, verbose) {
                    (false, false) => &out == want,
                    (false, true) => out.ends_with(&want[..]),
                    (true, false) => out.is_empty(),
                    (true, true) => true,
                };
                if !file_ok {
                    Some(format!("the file is {:?} afterwards", String::from_utf8_lossy(&left)))
                } else if !out_ok {
                    Some(format!("the output is {:?}", out))
                } else if !r.err.is_empty() {
                    Some(format!("there is a message: {:?}", r.err))
                } else {
                    None
                }
            }
            Err(e) => {
                ctx.label(e);
                if left != src {
                    Some(format!("the file is {:?} afterwards", String::from_utf8_lossy(&left)))
                } else if !verbose && !out.is_empty() {
                    Some(format!("the output is {:?}", out))
                } else if r.err.is_empty() {
                    Some("there is no message".to_string())
                } else {
                    None
                }
            }
        };
        if let Some(m) = m {
            return Fail(format!("{}: {}\nthe library gives {:?}", way, m, lib));
        }
    }
    Pass(matches!(&lib, Ok(o) if o.as_bytes() != src))
}
