//! Configurations as lists of (option name, value text), generated per option.

use crate::engine::Src;
use luafmt::config::Config;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ty {
    Bool,
    /// whitespace text
    Text,
    Num,
    Sep,
    Width,
}

pub const OPTIONS: &[(&str, Ty)] = &[
    ("replace_zero_spaces_with_hint", Ty::Bool),
    ("hint_after_multiline_comment", Ty::Text),
    ("hint_after_multiline_comment_text", Ty::Text),
    ("hint_before_comment", Ty::Text),
    ("hint_before_multiline_comment_text", Ty::Text),
    ("hint_before_oneline_comment_text", Ty::Text),
    ("hint_table_constructor", Ty::Text),
    ("remove_comments", Ty::Bool),
    ("remove_single_newlines", Ty::Bool),
    ("remove_all_newlines", Ty::Bool),
    ("remove_spaces_between_tokens", Ty::Bool),
    ("write_newline_at_eof", Ty::Bool),
    ("write_newline_at_multiline_table", Ty::Bool),
    ("write_newline_at_explist_multiline_table", Ty::Bool),
    ("indentation_string", Ty::Text),
    ("indent_var_suffix", Ty::Bool),
    ("indent_one_line_var_suffix", Ty::Bool),
    ("indent_exp_list", Ty::Bool),
    ("indent_one_line_exp_list", Ty::Bool),
    ("newline_format_first_oneline_comment", Ty::Num),
    ("newline_format_first_multiline_comment", Ty::Num),
    ("newline_format_oneline_comment", Ty::Num),
    ("newline_format_multiline_comment", Ty::Num),
    ("newline_format_statement", Ty::Num),
    ("newline_format_do_end", Ty::Num),
    ("newline_format_for", Ty::Num),
    ("newline_format_function", Ty::Num),
    ("newline_format_if", Ty::Num),
    ("newline_format_repeat_until", Ty::Num),
    ("newline_format_table_constructor", Ty::Num),
    ("newline_format_table_field", Ty::Num),
    ("newline_format_while", Ty::Num),
    ("newline_format_binary_op", Ty::Num),
    ("newline_format_var_suffix", Ty::Num),
    ("newline_format_exp_list", Ty::Num),
    ("newline_format_exp_list_first", Ty::Num),
    ("field_separator", Ty::Sep),
    ("write_trailing_field_separator", Ty::Bool),
    ("convert_charstring_to_normalstring", Ty::Bool),
    ("max_width", Ty::Width),
    ("force_single_line_binary_op", Ty::Bool),
    ("force_single_line_table", Ty::Bool),
    ("force_single_line_iv_table_field", Ty::Bool),
    ("force_single_line_kv_table_field", Ty::Bool),
    ("force_single_line_if", Ty::Bool),
    ("force_single_line_top_level_function", Ty::Bool),
    ("force_single_line_scoped_function", Ty::Bool),
    ("force_single_line_var_suffix", Ty::Bool),
    ("force_single_line_exp_list", Ty::Bool),
];

/// the configuration the project ships as its default
pub const SHIPPED: &[(&str, &str)] = &[
    ("replace_zero_spaces_with_hint", "true"),
    ("hint_after_multiline_comment", " "),
    ("hint_after_multiline_comment_text", " "),
    ("hint_before_comment", " "),
    ("hint_before_multiline_comment_text", " "),
    ("hint_before_oneline_comment_text", " "),
    ("hint_table_constructor", " "),
    ("remove_single_newlines", "true"),
    ("remove_spaces_between_tokens", "true"),
    ("write_newline_at_eof", "true"),
    ("write_newline_at_multiline_table", "false"),
    ("write_newline_at_explist_multiline_table", "true"),
    ("indentation_string", "    "),
    ("indent_var_suffix", "true"),
    ("indent_exp_list", "true"),
    ("newline_format_oneline_comment", "1"),
    ("newline_format_statement", "1"),
    ("newline_format_do_end", "1"),
    ("newline_format_for", "1"),
    ("newline_format_function", "1"),
    ("newline_format_if", "1"),
    ("newline_format_repeat_until", "1"),
    ("newline_format_table_constructor", "1"),
    ("newline_format_table_field", "1"),
    ("newline_format_while", "1"),
    ("newline_format_binary_op", "1"),
    ("newline_format_var_suffix", "1"),
    ("newline_format_exp_list", "1"),
    ("field_separator", ","),
    ("write_trailing_field_separator", "true"),
    ("convert_charstring_to_normalstring", "false"),
    ("max_width", "110"),
    ("force_single_line_table", "true"),
    ("force_single_line_iv_table_field", "false"),
    ("force_single_line_kv_table_field", "false"),
    ("force_single_line_binary_op", "true"),
    ("force_single_line_if", "true"),
    ("force_single_line_scoped_function", "true"),
    ("force_single_line_var_suffix", "true"),
    ("force_single_line_exp_list", "true"),
];

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Cfg(pub Vec<(String, String)>);

impl Cfg {
    pub fn shipped() -> Cfg {
        Cfg(SHIPPED.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
    }
    pub fn of(l: &[(&str, &str)]) -> Cfg {
        Cfg(l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().rev().find(|(n, _)| n == k).map(|(_, v)| &v[..])
    }
    pub fn is(&self, k: &str, v: &str) -> bool {
        self.get(k) == Some(v)
    }
    pub fn on(&self, k: &str) -> bool {
        self.is(k, "true")
    }
    pub fn set(&mut self, k: &str, v: &str) {
        self.0.retain(|(n, _)| n != k);
        self.0.push((k.to_string(), v.to_string()));
    }
    pub fn unset(&mut self, k: &str) {
        self.0.retain(|(n, _)| n != k);
    }
    pub fn config(&self) -> Config {
        let mut c = Config::default();
        for (k, v) in &self.0 {
            c.set(k, v);
        }
        c
    }
    pub fn show(&self) -> String {
        self.0.iter().map(|(k, v)| format!("{}={:?}", k, v)).collect::<Vec<_>>().join(" ")
    }
    /// The domain in which the options document a reformatting and not a rewriting of the code: removing spaces,
    /// newlines or comments is combined with `replace_zero_spaces_with_hint` (the repository's own tests fix that
    /// without it neighbouring tokens are simply joined).
    pub fn make_safe(&mut self) {
        let rem = ["remove_comments", "remove_single_newlines", "remove_all_newlines", "remove_spaces_between_tokens"];
        if rem.iter().any(|r| self.on(r)) {
            self.set("replace_zero_spaces_with_hint", "true");
        }
    }
}

pub fn gen_value(s: &mut Src, ty: Ty) -> String {
    match ty {
        Ty::Bool => s.pick(&["true", "false"]).to_string(),
        Ty::Text => s.pick(&[" ", "", "  ", "\t", "    "]).to_string(),
        Ty::Num => s.pick_c(&["1", "1", "1", "0", "2", "3"]).to_string(),
        Ty::Sep => s.pick(&[",", ";"]).to_string(),
        Ty::Width => match s.weighted(&[6, 2, 1]) {
            0 => s.range(10, 120).to_string(),
            1 => s.range(0, 40).to_string(),
            _ => s.pick_c(&["1000", "100000", "1000000000"]).to_string(),
        },
    }
}

pub fn gen_raw(s: &mut Src) -> Cfg {
    s.stream(2, raw)
}

fn raw(s: &mut Src) -> Cfg {
    let mut c;
    match s.weighted(&[3, 4, 2, 2]) {
        // sparse
        0 => {
            c = Cfg::default();
            for _ in 0..s.range(0, 6) {
                let (n, ty) = s.pick_c(OPTIONS);
                let v = gen_value(s, ty);
                c.set(n, &v);
            }
        }
        // the shipped default with a few changes
        1 => {
            c = Cfg::shipped();
            for _ in 0..s.range(0, 8) {
                let (n, ty) = s.pick_c(OPTIONS);
                if s.chance(1, 3) {
                    c.unset(n);
                } else {
                    let v = gen_value(s, ty);
                    c.set(n, &v);
                }
            }
        }
        // dense
        2 => {
            c = Cfg::default();
            for (n, ty) in OPTIONS {
                if s.chance(4, 5) {
                    let v = gen_value(s, *ty);
                    c.set(n, &v);
                }
            }
        }
        // half
        _ => {
            c = Cfg::default();
            for (n, ty) in OPTIONS {
                if s.chance(2, 5) {
                    let v = gen_value(s, *ty);
                    c.set(n, &v);
                }
            }
        }
    }
    c
}

pub fn gen_safe(s: &mut Src) -> Cfg {
    let mut c = gen_raw(s);
    c.make_safe();
    c
}
