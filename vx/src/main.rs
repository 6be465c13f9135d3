//! vx: reads Rust source files and prints, as JSON, the byte spans of the syntax the
//! contract weaver needs (functions, signatures, loops, casts, macros, closures, ...).
//! It judges nothing and changes nothing: the weaver edits the original text at these spans.
use proc_macro2::Span;
use quote::ToTokens;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Src {
    text: String,
    lines: Vec<usize>, // byte offset of each line
}
impl Src {
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.lines[lc.line - 1];
        let mut o = ls;
        for (n, c) in self.text[ls..].chars().enumerate() {
            if n == lc.column {
                break;
            }
            o += c.len_utf8();
        }
        o
    }
    fn sp(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct FnV<'a> {
    src: &'a Src,
    out: Vec<String>,
    loop_stack: Vec<usize>,
    nloops: usize,
    closure_depth: usize,
}

impl<'a> FnV<'a> {
    fn j(&self, t: &impl ToTokens) -> String {
        let (a, b) = self.span_of(t);
        format!("[{},{}]", a, b)
    }
    fn span_of(&self, t: &impl ToTokens) -> (usize, usize) {
        self.src.sp(t.span())
    }
    fn push(&mut self, kind: &str, t: &impl ToTokens, rest: String) {
        let s = self.j(t);
        let l = self
            .loop_stack
            .last()
            .map(|x| x.to_string())
            .unwrap_or("null".into());
        self.out.push(format!(
            "{{\"k\":{},\"span\":{},\"loop\":{},\"cdepth\":{}{}{}}}",
            esc(kind),
            s,
            l,
            self.closure_depth,
            if rest.is_empty() { "" } else { "," },
            rest
        ));
    }
    fn block_j(&self, b: &syn::Block) -> String {
        let (o, _) = self.src.sp(b.brace_token.span.open());
        let (c, _) = self.src.sp(b.brace_token.span.close());
        let tail = match b.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => self.j(e),
            _ => "null".into(),
        };
        let stmts: Vec<String> = b.stmts.iter().map(|s| self.j(s)).collect();
        format!(
            "{{\"open\":{},\"close\":{},\"tail\":{},\"stmts\":[{}]}}",
            o,
            c,
            tail,
            stmts.join(",")
        )
    }
    fn enter_loop(&mut self, kind: &str, t: &impl ToTokens, body: &syn::Block, rest: String) {
        let id = self.nloops;
        self.nloops += 1;
        let b = self.block_j(body);
        self.push(
            "loop",
            t,
            format!(
                "\"id\":{},\"lk\":{},\"depth\":{},\"body\":{}{}",
                id,
                esc(kind),
                self.loop_stack.len(),
                b,
                rest
            ),
        );
        self.loop_stack.push(id);
    }
}

impl<'a, 'ast> Visit<'ast> for FnV<'a> {
    fn visit_item(&mut self, _i: &'ast syn::Item) {} // nested items are not part of the body
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let rest = format!(",\"pat\":{},\"expr\":{}", self.j(&e.pat), self.j(&*e.expr));
        self.visit_expr(&e.expr);
        self.enter_loop("for", e, &e.body, rest);
        visit::visit_block(self, &e.body);
        self.loop_stack.pop();
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let rest = format!(",\"expr\":{}", self.j(&*e.cond));
        self.enter_loop("while", e, &e.body, rest);
        self.visit_expr(&e.cond);
        visit::visit_block(self, &e.body);
        self.loop_stack.pop();
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.enter_loop("loop", e, &e.body, String::new());
        visit::visit_block(self, &e.body);
        self.loop_stack.pop();
    }
    fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
        let ty = e.ty.to_token_stream().to_string();
        let rest = format!("\"expr\":{},\"ty\":{}", self.j(&*e.expr), esc(&ty));
        self.push("cast", e, rest);
        visit::visit_expr_cast(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        let op = e.op.to_token_stream().to_string();
        let rest = format!(
            "\"left\":{},\"right\":{},\"op\":{},\"opspan\":{}",
            self.j(&*e.left),
            self.j(&*e.right),
            esc(&op),
            self.j(&e.op)
        );
        self.push("binary", e, rest);
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_unary(&mut self, e: &'ast syn::ExprUnary) {
        let op = e.op.to_token_stream().to_string();
        let rest = format!("\"expr\":{},\"op\":{}", self.j(&*e.expr), esc(&op));
        self.push("unary", e, rest);
        visit::visit_expr_unary(self, e);
    }
    fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) {
        let rest = format!("\"left\":{},\"right\":{}", self.j(&*e.left), self.j(&*e.right));
        self.push("assign", e, rest);
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let args: Vec<String> = e.args.iter().map(|a| self.j(a)).collect();
        let tf = match &e.turbofish {
            Some(t) => self.j(t),
            None => "null".into(),
        };
        let rest = format!(
            "\"recv\":{},\"method\":{},\"mspan\":{},\"args\":[{}],\"turbofish\":{}",
            self.j(&*e.receiver),
            esc(&e.method.to_string()),
            self.j(&e.method),
            args.join(","),
            tf
        );
        self.push("mcall", e, rest);
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        let args: Vec<String> = e.args.iter().map(|a| self.j(a)).collect();
        let rest = format!(
            "\"func\":{},\"fspan\":{},\"args\":[{}]",
            esc(&e.func.to_token_stream().to_string().replace(' ', "")),
            self.j(&*e.func),
            args.join(",")
        );
        self.push("call", e, rest);
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        let ins: Vec<String> = e.inputs.iter().map(|a| self.j(a)).collect();
        let ret = match &e.output {
            syn::ReturnType::Default => "null".into(),
            syn::ReturnType::Type(_, t) => self.j(&**t),
        };
        let (o2, _) = self.src.sp(e.or2_token.span());
        let rest = format!(
            "\"inputs\":[{}],\"body\":{},\"ret\":{},\"or2\":{},\"isblock\":{}",
            ins.join(","),
            self.j(&*e.body),
            ret,
            o2,
            matches!(&*e.body, syn::Expr::Block(_))
        );
        self.push("closure", e, rest);
        self.closure_depth += 1;
        visit::visit_expr_closure(self, e);
        self.closure_depth -= 1;
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        let rest = match &e.expr {
            Some(x) => format!("\"expr\":{}", self.j(&**x)),
            None => "\"expr\":null".into(),
        };
        self.push("return", e, rest);
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        let rest = format!("\"expr\":{}", self.j(&*e.expr));
        self.push("try", e, rest);
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_break(&mut self, e: &'ast syn::ExprBreak) {
        self.push("break", e, String::new());
        visit::visit_expr_break(self, e);
    }
    fn visit_expr_continue(&mut self, e: &'ast syn::ExprContinue) {
        self.push("continue", e, String::new());
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        let b = self.block_j(&e.then_branch);
        let rest = format!(
            "\"cond\":{},\"then\":{},\"is_let\":{}",
            self.j(&*e.cond),
            b,
            matches!(&*e.cond, syn::Expr::Let(_))
        );
        self.push("if", e, rest);
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        let arms: Vec<String> = e
            .arms
            .iter()
            .map(|a| {
                format!(
                    "{{\"span\":{},\"pat\":{},\"body\":{},\"guard\":{}}}",
                    self.j(a),
                    self.j(&a.pat),
                    self.j(&*a.body),
                    match &a.guard {
                        Some((_, g)) => self.j(&**g),
                        None => "null".into(),
                    }
                )
            })
            .collect();
        let rest = format!("\"expr\":{},\"arms\":[{}]", self.j(&*e.expr), arms.join(","));
        self.push("match", e, rest);
        visit::visit_expr_match(self, e);
    }
    fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
        let rest = format!("\"expr\":{},\"index\":{}", self.j(&*e.expr), self.j(&*e.index));
        self.push("index", e, rest);
        visit::visit_expr_index(self, e);
    }
    fn visit_expr_range(&mut self, e: &'ast syn::ExprRange) {
        self.push("range", e, String::new());
        visit::visit_expr_range(self, e);
    }
    fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
        if let syn::Lit::Float(f) = &e.lit {
            let r = format!("\"text\":{}", esc(&f.to_string()));
            self.push("flit", e, r);
        }
        if let syn::Lit::Str(_) = &e.lit {
            self.push("slit", e, String::new());
        }
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        let t = e.to_token_stream().to_string().replace(' ', "");
        self.push("path", e, format!("\"text\":{}", esc(&t)));
        visit::visit_expr_path(self, e);
    }
    fn visit_expr_unsafe(&mut self, e: &'ast syn::ExprUnsafe) {
        self.push("unsafe", e, String::new());
        visit::visit_expr_unsafe(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let r = format!(
            "\"name\":{},\"stmt\":false",
            esc(&m.path.to_token_stream().to_string().replace(' ', ""))
        );
        self.push("macro", m, r);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        let r = format!(
            "\"name\":{},\"stmt\":true",
            esc(&m.mac.path.to_token_stream().to_string().replace(' ', ""))
        );
        self.push("macro", m, r);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let init = match &l.init {
            Some(i) => self.j(&*i.expr),
            None => "null".into(),
        };
        let rest = format!("\"pat\":{},\"init\":{}", self.j(&l.pat), init);
        self.push("local", l, rest);
        visit::visit_local(self, l);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.push("attr", a, String::new());
    }
}

struct Top<'a> {
    src: &'a Src,
    items: Vec<String>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t == "#[test]" || t.contains("cfg(test)")
    })
}

impl<'a> Top<'a> {
    fn j(&self, t: &impl ToTokens) -> String {
        let (a, b) = self.src.sp(t.span());
        format!("[{},{}]", a, b)
    }
    fn attrs_end(&self, attrs: &[syn::Attribute], start: usize) -> usize {
        attrs
            .iter()
            .map(|a| self.src.sp(a.span()).1)
            .max()
            .unwrap_or(start)
    }
    #[allow(clippy::too_many_arguments)]
    fn func(
        &mut self,
        path: String,
        owner: &str,
        trait_: &str,
        attrs: &[syn::Attribute],
        vis: &syn::Visibility,
        sig: &syn::Signature,
        block: &syn::Block,
        whole: Span,
    ) {
        let mut v = FnV {
            src: self.src,
            out: vec![],
            loop_stack: vec![],
            nloops: 0,
            closure_depth: 0,
        };
        let bj = v.block_j(block);
        visit::visit_block(&mut v, block);
        let (s, e) = self.src.sp(whole);
        let ret = match &sig.output {
            syn::ReturnType::Default => "null".into(),
            syn::ReturnType::Type(_, t) => self.j(&**t),
        };
        let params: Vec<String> = sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Receiver(r) => format!(
                    "{{\"self\":true,\"text\":{},\"span\":{}}}",
                    esc(&r.to_token_stream().to_string()),
                    self.j(r)
                ),
                syn::FnArg::Typed(t) => format!(
                    "{{\"self\":false,\"pat\":{},\"ty\":{},\"span\":{}}}",
                    esc(&t.pat.to_token_stream().to_string()),
                    esc(&t.ty.to_token_stream().to_string()),
                    self.j(t)
                ),
            })
            .collect();
        let start = self.attrs_end(attrs, s);
        let attrt: Vec<String> = attrs
            .iter()
            .map(|a| esc(&a.to_token_stream().to_string()))
            .collect();
        self.items.push(format!(
            "{{\"kind\":\"fn\",\"path\":{},\"name\":{},\"owner\":{},\"trait\":{},\"vis\":{},\"span\":[{},{}],\"start\":{},\"sig\":{},\"ret\":{},\"params\":[{}],\"attrs\":[{}],\"block\":{},\"nodes\":[{}]}}",
            esc(&path),
            esc(&sig.ident.to_string()),
            esc(owner),
            esc(trait_),
            esc(&vis.to_token_stream().to_string()),
            s,
            e,
            start,
            self.j(sig),
            ret,
            params.join(","),
            attrt.join(","),
            bj,
            v.out.join(",")
        ));
    }
    fn other(&mut self, kind: &str, name: String, attrs: &[syn::Attribute], whole: Span) {
        let (s, e) = self.src.sp(whole);
        let start = self.attrs_end(attrs, s);
        self.items.push(format!(
            "{{\"kind\":{},\"path\":{},\"span\":[{},{}],\"start\":{}}}",
            esc(kind),
            esc(&name),
            s,
            e,
            start
        ));
    }
    fn items(&mut self, items: &[syn::Item], prefix: &str) {
        for it in items {
            match it {
                syn::Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    self.func(
                        format!("{}{}", prefix, f.sig.ident),
                        "",
                        "",
                        &f.attrs,
                        &f.vis,
                        &f.sig,
                        &f.block,
                        f.span(),
                    )
                }
                syn::Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let owner = im.self_ty.to_token_stream().to_string().replace(' ', "");
                    let tr = im
                        .trait_
                        .as_ref()
                        .map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', ""))
                        .unwrap_or_default();
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                if is_test(&f.attrs) {
                                    continue;
                                }
                                let p = if tr.is_empty() {
                                    format!("{}{}::{}", prefix, owner, f.sig.ident)
                                } else {
                                    format!("{}<{} as {}>::{}", prefix, owner, tr, f.sig.ident)
                                };
                                self.func(
                                    p, &owner, &tr, &f.attrs, &f.vis, &f.sig, &f.block, f.span(),
                                )
                            }
                            syn::ImplItem::Const(c) => self.other(
                                "iconst",
                                format!("{}{}::{}", prefix, owner, c.ident),
                                &c.attrs,
                                c.span(),
                            ),
                            _ => {}
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    self.other("struct", format!("{}{}", prefix, s.ident), &s.attrs, s.span())
                }
                syn::Item::Enum(s) => {
                    self.other("enum", format!("{}{}", prefix, s.ident), &s.attrs, s.span())
                }
                syn::Item::Const(s) => {
                    self.other("const", format!("{}{}", prefix, s.ident), &s.attrs, s.span())
                }
                syn::Item::Static(s) => {
                    self.other("static", format!("{}{}", prefix, s.ident), &s.attrs, s.span())
                }
                syn::Item::Type(s) => {
                    self.other("type", format!("{}{}", prefix, s.ident), &s.attrs, s.span())
                }
                syn::Item::Trait(s) => {
                    self.other("trait", format!("{}{}", prefix, s.ident), &s.attrs, s.span())
                }
                syn::Item::Use(s) => self.other("use", String::new(), &s.attrs, s.span()),
                syn::Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = &m.content {
                        self.items(its, &format!("{}{}::", prefix, m.ident));
                    }
                }
                _ => {}
            }
        }
    }
}

fn main() {
    let mut outs = vec![];
    for f in std::env::args().skip(1) {
        let text = match std::fs::read_to_string(&f) {
            Ok(t) => t,
            Err(e) => {
                outs.push(format!("{}:{{\"error\":{}}}", esc(&f), esc(&e.to_string())));
                continue;
            }
        };
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push(i + 1);
            }
        }
        let src = Src { text, lines };
        match syn::parse_file(&src.text) {
            Ok(ast) => {
                let mut t = Top {
                    src: &src,
                    items: vec![],
                };
                t.items(&ast.items, "");
                outs.push(format!("{}:{{\"items\":[{}]}}", esc(&f), t.items.join(",\n")));
            }
            Err(e) => outs.push(format!("{}:{{\"error\":{}}}", esc(&f), esc(&e.to_string()))),
        }
    }
    println!("{{{}}}", outs.join(",\n"));
}
