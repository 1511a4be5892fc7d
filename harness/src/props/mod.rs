pub mod cli;
pub mod layout;
pub mod meta;
pub mod range;
pub mod robust;
pub mod text;

use crate::cfggen::Cfg;
use crate::engine::{Ctx, Outcome, PropFn};

pub type Fixed = Box<dyn Fn(&mut Ctx) -> Outcome + Send + Sync>;

pub struct Prop {
    pub id: &'static str,
    pub name: &'static str,
    pub f: PropFn,
    /// inputs of defects found before, judged with the same oracle
    pub fixed: Vec<Fixed>,
    /// does the known finding with this input still fail?
    pub probe: Option<fn(&str) -> bool>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub type Pair = (&'static str, &'static [(&'static str, &'static str)]);

/// fixed inputs for a property whose oracle judges one program and one configuration
pub fn fixed_pairs(judge: fn(&mut Ctx, &str, &Cfg) -> Outcome, pairs: &'static [Pair]) -> Vec<Fixed> {
    pairs
        .iter()
        .map(|(src, cfg)| Box::new(move |ctx: &mut Ctx| judge(ctx, src, &Cfg::of(cfg))) as Fixed)
        .collect()
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(text::props());
    v.extend(robust::props());
    v.extend(range::props());
    v.extend(layout::props());
    v.extend(cli::props());
    v.extend(meta::props());
    v
}

/// Estimate of the work the "does it fit on one line" attempts of nested constructs make: each attempt formats the
/// construct once more, so the work doubles with every level.
pub fn cost(n: &crate::luaparse::N) -> f64 {
    use crate::luaparse::Kd::*;
    let sub: f64 = n.c.iter().map(cost).sum();
    let f = match n.k {
        Table | Bin | Suffixed | If | Body => 2.0,
        Args | ExpList => 1.5,
        _ => 1.0,
    };
    1.0 + f * sub
}

/// The same for one configuration: the single-line options try constructs on one line, and the two indentation options
/// write lists of suffixes and of expressions twice.
pub fn cost_with(n: &crate::luaparse::N, cfg: &Cfg) -> f64 {
    use crate::luaparse::Kd::*;
    fn go(n: &crate::luaparse::N, single: bool, var: f64, exp: f64) -> f64 {
        let sub: f64 = n.c.iter().map(|c| go(c, single, var, exp)).sum();
        let one = |f: f64| if single { f } else { 1.0 };
        let f = match n.k {
            Table => 2.0,
            Bin | If | Body => one(2.0),
            Suffixed => one(2.0) * var,
            Args | ExpList => one(1.5) * exp,
            _ => 1.0,
        };
        1.0 + f * sub
    }
    let single = cfg.0.iter().any(|(k, _)| k == "max_width" || k.starts_with("force_single_line"));
    go(n, single, if cfg.on("indent_var_suffix") { 2.0 } else { 1.0 }, if cfg.on("indent_exp_list") { 2.0 } else { 1.0 })
}

pub const MOST: f64 = 300000.0;

/// Deeply nested programs are formatted without the single-line options, and still deeper ones without those two
/// indentation options: luafmt's time is exponential in the nesting depth there.
pub fn tame(ctx: &mut Ctx, p: &crate::sut::Parsed, cfg: &mut Cfg) {
    let mut n = cfg.0.len();
    if cost_with(&p.tree, cfg) > MOST {
        cfg.0.retain(|(k, _)| k != "max_width" && !k.starts_with("force_single_line"));
        if n != cfg.0.len() {
            ctx.label("single-line options left out (deep nesting)");
            n = cfg.0.len();
        }
    }
    if cost_with(&p.tree, cfg) > MOST {
        cfg.0.retain(|(k, _)| k != "indent_var_suffix" && k != "indent_exp_list");
        if n != cfg.0.len() {
            ctx.label("indentation options left out (deep nesting)");
        }
    }
}
