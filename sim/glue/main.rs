//! Binds the simulator to the real lexer and parser of /repo (compiled unchanged, with cfg(dst)).
use simcore::hooks::sut_call;
use simcore::session::{Kept, Sess};
use sut::parser::blocks::Blocks;
use sut::parser::expressions::Expressions;
use sut::parser::nodes::ASTNode;
use sut::parser::parser::{Parser, PythonCoreParser};
use sut::parser::statements::Statements;
use sut::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use sut::parser::tokens::Token;

enum K { Tok(Result<Box<Token>, String>), Node(Result<Box<ASTNode>, String>), Newline, End(String) }

impl Kept for K {
    fn show(&self) -> String { match self { K::Tok(r) => format!("{:?}", r), K::Node(r) => format!("{:?}", r), K::Newline => "<newline>".into(), K::End(s) => s.clone() } }
    fn is_end(&self) -> bool { matches!(self, K::Tok(Err(_)) | K::End(_)) || matches!(self, K::Tok(Ok(t)) if matches!(**t, Token::EOF(..))) }
}

struct Lex(Box<PythonCoreTokenizer>);
impl Sess for Lex {
    fn step(&mut self) -> Box<dyn Kept> { let r = sut_call(|| self.0.get_symbol()); Box::new(K::Tok(r)) }
    fn pos(&self) -> u32 { sut_call(|| self.0.get_position()) }
    fn look(&self) -> String { String::new() }
}

struct Par { p: Box<PythonCoreParser>, api: u8, method: String, started: bool }
impl Sess for Par {
    fn step(&mut self) -> Box<dyn Kept> {
        let p = &mut self.p;
        if self.api == 0 {
            // one statement per request
            if !self.started { self.started = true; sut_call(|| p.advance()); }
            let (eof, nl, err) = match p.dst_symbol() { Ok(t) => (matches!(**t, Token::EOF(..)), matches!(**t, Token::Newline(..)), None), Err(e) => (false, false, Some(format!("<lexical error> {}", e))) };
            if let Some(e) = err { return Box::new(K::End(e)) }
            if eof { let s = format!("{:?}", p.dst_symbol()); return Box::new(K::End(s)) }
            if nl { sut_call(|| p.advance()); return Box::new(K::Newline) }
            let r = sut_call(|| p.parse_statements_stmt());
            if r.is_err() { let s = format!("{:?}", r); sut_drop(r); return Box::new(K::End(s)) }
            return Box::new(K::Node(r))
        }
        let m = self.method.as_str();
        let r = sut_call(|| match m {
            "file" => p.parse_blocks_file_input(),
            "eval" => p.parse_blocks_eval_input(),
            "single" => p.parse_blocks_single_input(),
            "functype" => p.parse_blocks_func_type_input(),
            m => {
                p.advance();
                match m {
                    "m:atom" => p.parse_expressions_atom(),
                    "m:atom_expr" => p.parse_expressions_atom_expr(),
                    "m:test" => p.parse_expressions_test(),
                    "m:named" => p.parse_expressions_named_expression(),
                    "m:star" => p.parse_expressions_star_expr(),
                    "m:comparison" => p.parse_expressions_comparison(),
                    "m:simple" => p.parse_statements_simple_stmt(),
                    "m:arglist" => p.parse_expressions_arglist(),
                    "m:tfp" => p.parse_blocks_tfp_def_assign(),
                    "m:star_list" => p.parse_expressions_testlist_star_expr(),
                    _ => p.parse_statements_stmt(),
                }
            }
        });
        Box::new(Whole(r))
    }
    fn pos(&self) -> u32 { sut_call(|| self.p.lexer.get_position()) }
    fn look(&self) -> String { format!("{:?}", self.p.dst_symbol()) }
}

mod methods { use super::*; include!(env!("SIM_METHODS")); }
fn method(name: &str) -> Option<methods::F> { methods::METHODS.iter().find(|m| m.0 == name).map(|m| m.1) }

/// A client of the inner entry points: it looks at the lookahead, asks for one clause, expression or statement that may
/// begin there (now and then for one that may not), steps over single tokens, and goes on behind an error.
struct Clauses { p: Box<PythonCoreParser>, family: u64, k: u64, started: bool, forced: bool }
fn mixed(a: u64, b: u64) -> u64 { let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03); z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9); z ^ (z >> 32) }
impl Clauses {
    fn choose(&self, t: &Token) -> Option<(&'static str, methods::F)> {
        let h = mixed(self.family, self.k);
        let all = methods::METHODS;
        if h % 16 == 0 && self.family % 3 != 0 { let m = all[(h >> 8) as usize % all.len()]; return Some(m) }
        let d = format!("{:?}", t);
        let kind = d.split('(').next().unwrap_or("");
        let e = "parse_expressions_";
        let fits: &[&str] = match kind {
            "PyIf" => &["parse_statements_if_stmt", "parse_statements_stmt", "", "parse_expressions_comp_if"],
            "PyElif" => &["parse_statements_elif_stmt"],
            "PyElse" => &["parse_statements_else_stmt"],
            "PyWhile" => &["parse_statements_while_stmt", "parse_statements_compound_stmt", ""],
            "PyFor" => &["parse_statements_for_stmt", "", "parse_expressions_comp_for", "parse_expressions_sync_comp_for"],
            "PyTry" => &["parse_statements_try_stmt", "", ""],
            "PyExcept" => &["parse_statements_except_clause", "parse_statements_except_stmt"],
            "PyFinally" => &["parse_statements_finally_stmt"],
            "PyWith" => &["parse_statements_with_stmt", ""],
            "PyDef" => &["parse_blocks_func_def", ""],
            "PyClass" => &["parse_blocks_class_def", ""],
            "PyMatrice" => &["parse_blocks_decorated", "parse_blocks_decorator", "parse_blocks_decorators"],
            "PyAsync" => &["parse_statements_async_stmt", "parse_blocks_async_func_def", "parse_expressions_comp_for", ""],
            "PyColon" => &["", "", "parse_expressions_subscript"],
            "Newline" => &["", "", "parse_statements_suite", "parse_blocks_func_body_suite"],
            "Indent" | "Dedent" | "TypeComment" => &[""],
            "PyDot" => &["parse_expressions_trailer", ""],
            "PyFrom" => &["parse_statements_import_from", ""],
            "PyImport" => &["parse_statements_import_name", "parse_statements_import_stmt", ""],
            "PyDel" => &["parse_statements_del_stmt"], "PyPass" => &["parse_statements_pass_stmt", "parse_statements_flow_stmt"],
            "PyReturn" => &["parse_statements_return_stmt", "parse_statements_flow_stmt", ""], "PyRaise" => &["parse_statements_raise_stmt", ""],
            "PyGlobal" => &["parse_statements_global_stmt", ""], "PyNonLocal" => &["parse_statements_nonlocal_stmt", ""], "PyAssert" => &["parse_statements_assert_stmt", ""],
            "PyYield" => &["parse_expressions_yield_expr", "parse_statements_yield_stmt"],
            "PyBreak" => &["parse_statements_break_stmt"], "PyContinue" => &["parse_statements_continue_stmt"],
            "PyLambda" => &["parse_expressions_test", "parse_expressions_no_cond_test", ""],
            "PyLeftParen" => &["parse_expressions_atom", "parse_blocks_parameters", "parse_functions_func_type", "parse_expressions_trailer", ""],
            "PyLeftBracket" => &["parse_expressions_atom", "parse_expressions_trailer", ""],
            "PyLeftCurly" => &["parse_expressions_atom", ""],
            "PyMul" => &["parse_expressions_star_expr", "parse_expressions_var_args_list", "parse_expressions_argument", ""],
            "PyPower" => &["parse_expressions_argument", "parse_expressions_var_args_list", ""],
            "AtomName" | "AtomNumber" | "AtomString" | "PyNone" | "PyTrue" | "PyFalse" | "PyElipsis" | "PyPlus" | "PyMinus" | "PyBitInvert" | "PyNot" | "PyAwait" => match self.family % 3 {
                0 => &["parse_statements_small_stmt", "parse_statements_expr_stmt", "parse_statements_simple_stmt", "parse_expressions_testlist_star_expr"],
                _ => {
                    // any expression level
                    let n = all.iter().filter(|m| m.0.starts_with(e)).count();
                    return all.iter().filter(|m| m.0.starts_with(e)).nth((h >> 8) as usize % n.max(1)).copied()
                }
            },
            _ => &[""],
        };
        let name = fits[(h >> 8) as usize % fits.len()];
        method(name).map(|f| (methods::METHODS.iter().find(|m| m.0 == name).unwrap().0, f))
    }
}
struct Clause(String, Option<Result<Box<ASTNode>, String>>, bool);
impl Kept for Clause { fn show(&self) -> String { match &self.1 { Some(r) => format!("{}: {:?}", self.0, r), None => self.0.clone() } } fn is_end(&self) -> bool { self.2 } }
impl Sess for Clauses {
    fn step(&mut self) -> Box<dyn Kept> {
        if !self.started { self.started = true; let p = &mut self.p; sut_call(|| p.advance()); }
        self.k += 1;
        let (end, m) = match self.p.dst_symbol() {
            Err(e) => (Some(format!("<lexical error> {}", e)), None),
            Ok(t) if matches!(**t, Token::EOF(..)) => (Some(format!("{:?}", t)), None),
            Ok(t) => (None, if self.forced { None } else { self.choose(t) }),
        };
        if let Some(e) = end { return Box::new(Clause(e, None, true)) }
        self.forced = false;
        let before = format!("{:?} {}", self.p.dst_symbol(), self.p.lexer.get_position());
        let p = &mut self.p;
        match m {
            None => { sut_call(|| p.advance()); Box::new(Clause("<next>".into(), None, false)) }
            Some((name, f)) => {
                let r = sut_call(|| f(p));
                // one token at least is consumed by two requests
                self.forced = r.is_err() || before == format!("{:?} {}", self.p.dst_symbol(), self.p.lexer.get_position());
                Box::new(Clause(name.into(), Some(r), false))
            }
        }
    }
    fn pos(&self) -> u32 { sut_call(|| self.p.lexer.get_position()) }
    fn look(&self) -> String { format!("{:?}", self.p.dst_symbol()) }
}

struct Whole(Result<Box<ASTNode>, String>);
impl Kept for Whole { fn show(&self) -> String { format!("{:?}", self.0) } fn is_end(&self) -> bool { true } }

fn sut_drop<T>(t: T) { drop(t) }

fn make(api: &str, text: &str) -> Box<dyn Sess> {
    if api == "lex" { let l = sut_call(|| Box::new(PythonCoreTokenizer::new(text.to_string()))); return Box::new(Lex(l)) }
    let p = sut_call(|| Box::new(PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(text.to_string())))));
    if let Some(f) = api.strip_prefix("c:") { return Box::new(Clauses { p, family: f.parse().unwrap_or(0), k: 0, started: false, forced: false }) }
    Box::new(Par { p, api: if api == "stmt" { 0 } else { 1 }, method: api.to_string(), started: false })
}

fn main() { simcore::cli::main(make) }
