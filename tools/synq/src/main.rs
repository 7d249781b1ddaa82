//! Writes the syntax trees of Rust files as JSON: synq OUT.json ROOT
//! Every node is `[kind, line, ...]`; parentheses and groups are transparent.
use proc_macro2::Span;
use quote::ToTokens;
use std::fmt::Write as _;
use std::path::Path;
use syn::spanned::Spanned;
use syn::*;

struct W {
    s: String,
}

fn line(s: Span) -> usize {
    s.start().line
}

fn text(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

impl W {
    fn str(&mut self, v: &str) {
        self.s.push('"');
        for c in v.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(self.s, "\\u{:04x}", c as u32);
                }
                c => self.s.push(c),
            }
        }
        self.s.push('"');
    }
    fn open(&mut self, kind: &str, sp: Span) {
        self.s.push('[');
        self.str(kind);
        let _ = write!(self.s, ",{}", line(sp));
    }
    fn close(&mut self) {
        self.s.push(']');
    }
    fn c(&mut self) {
        self.s.push(',');
    }
    fn list<T>(&mut self, it: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut Self, T)) {
        self.s.push('[');
        let mut first = true;
        for x in it {
            if !first {
                self.c();
            }
            first = false;
            f(self, x);
        }
        self.s.push(']');
    }
    fn text(&mut self, t: &impl ToTokens) {
        let v = text(t);
        self.str(&v);
    }
    fn opt<T>(&mut self, o: Option<T>, f: impl FnOnce(&mut Self, T)) {
        match o {
            Some(x) => f(self, x),
            None => self.s.push_str("null"),
        }
    }

    fn block(&mut self, b: &Block) {
        self.open("block", b.span());
        self.c();
        self.list(&b.stmts, |w, s| w.stmt(s));
        self.close();
    }

    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Local(l) => {
                self.open("local", l.span());
                self.c();
                self.pat(&l.pat);
                self.c();
                self.opt(l.init.as_ref(), |w, i| w.expr(&i.expr));
                self.c();
                self.opt(l.init.as_ref().and_then(|i| i.diverge.as_ref()), |w, d| w.expr(&d.1));
                self.close();
            }
            Stmt::Item(i) => {
                self.open("item", i.span());
                self.c();
                self.item(i);
                self.close();
            }
            Stmt::Expr(e, semi) => {
                self.open(if semi.is_some() { "semi" } else { "tail" }, e.span());
                self.c();
                self.expr(e);
                self.close();
            }
            Stmt::Macro(m) => {
                self.open(if m.semi_token.is_some() { "semi" } else { "tail" }, m.span());
                self.c();
                self.mac(&m.mac);
                self.close();
            }
        }
    }

    fn mac(&mut self, m: &Macro) {
        self.open("macro", m.span());
        self.c();
        self.text(&m.path);
        self.c();
        self.text(&m.tokens);
        self.c();
        // most macros take expressions; `matches!` takes a pattern
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name == "matches" {
            let r = m.parse_body_with(|p: parse::ParseStream| {
                let e: Expr = p.parse()?;
                p.parse::<Token![,]>()?;
                let pat = Pat::parse_multi_with_leading_vert(p)?;
                let guard = if p.peek(Token![if]) {
                    p.parse::<Token![if]>()?;
                    Some(p.parse::<Expr>()?)
                } else {
                    None
                };
                let _ = p.parse::<Option<Token![,]>>()?;
                Ok((e, pat, guard))
            });
            match r {
                Ok((e, pat, g)) => {
                    self.s.push('[');
                    self.expr(&e);
                    self.c();
                    self.pat(&pat);
                    self.c();
                    self.opt(g.as_ref(), |w, g| w.expr(g));
                    self.s.push(']');
                }
                Err(_) => self.s.push_str("null"),
            }
        } else if name == "thread_local" {
            self.s.push_str("null");
        } else {
            type Args = punctuated::Punctuated<Expr, Token![,]>;
            match m.parse_body_with(Args::parse_terminated) {
                Ok(a) => self.list(&a, |w, e| w.expr(e)),
                Err(_) => self.s.push_str("null"),
            }
        }
        self.close();
    }

    fn expr(&mut self, e: &Expr) {
        let sp = e.span();
        match e {
            Expr::Paren(p) => return self.expr(&p.expr),
            Expr::Group(p) => return self.expr(&p.expr),
            Expr::Block(b) => {
                self.open("block", sp);
                self.c();
                self.list(&b.block.stmts, |w, s| w.stmt(s));
                if let Some(l) = &b.label {
                    self.c();
                    self.text(&l.name);
                }
            }
            Expr::Unsafe(b) => {
                self.open("unsafe", sp);
                self.c();
                self.list(&b.block.stmts, |w, s| w.stmt(s));
            }
            Expr::Call(x) => {
                self.open("call", sp);
                self.c();
                self.expr(&x.func);
                self.c();
                self.list(&x.args, |w, a| w.expr(a));
            }
            Expr::MethodCall(x) => {
                self.open("mcall", line_of(x.method.span()));
                self.c();
                self.expr(&x.receiver);
                self.c();
                self.str(&x.method.to_string());
                self.c();
                self.list(&x.args, |w, a| w.expr(a));
                if let Some(t) = &x.turbofish {
                    self.c();
                    self.text(t);
                }
            }
            Expr::Path(x) => {
                self.open("path", sp);
                self.c();
                self.text(x);
            }
            Expr::Lit(x) => {
                self.open("lit", sp);
                self.c();
                match &x.lit {
                    Lit::Int(i) => match i.base10_parse::<u128>() {
                        Ok(v) => {
                            let _ = write!(self.s, "{}", v);
                        }
                        Err(_) => self.text(i),
                    },
                    Lit::Bool(b) => self.s.push_str(if b.value { "true" } else { "false" }),
                    l => self.text(l),
                }
                if let Lit::Str(s) = &x.lit {
                    self.c();
                    self.str(&s.value());
                }
            }
            Expr::Binary(x) => {
                self.open("bin", sp);
                self.c();
                self.text(&x.op);
                self.c();
                self.expr(&x.left);
                self.c();
                self.expr(&x.right);
            }
            Expr::Unary(x) => {
                self.open("un", sp);
                self.c();
                self.text(&x.op);
                self.c();
                self.expr(&x.expr);
            }
            Expr::Assign(x) => {
                self.open("assign", sp);
                self.c();
                self.expr(&x.left);
                self.c();
                self.expr(&x.right);
            }
            Expr::Field(x) => {
                self.open("field", sp);
                self.c();
                self.expr(&x.base);
                self.c();
                self.text(&x.member);
            }
            Expr::Index(x) => {
                self.open("index", sp);
                self.c();
                self.expr(&x.expr);
                self.c();
                self.expr(&x.index);
            }
            Expr::If(x) => {
                self.open("if", sp);
                self.c();
                self.expr(&x.cond);
                self.c();
                self.block(&x.then_branch);
                self.c();
                self.opt(x.else_branch.as_ref(), |w, b| w.expr(&b.1));
            }
            Expr::Match(x) => {
                self.open("match", sp);
                self.c();
                self.expr(&x.expr);
                self.c();
                self.list(&x.arms, |w, a| {
                    w.open("arm", a.pat.span());
                    w.c();
                    w.pat(&a.pat);
                    w.c();
                    w.opt(a.guard.as_ref(), |w, g| w.expr(&g.1));
                    w.c();
                    w.expr(&a.body);
                    if a.attrs.iter().any(|a| a.path().is_ident("cfg")) {
                        w.c();
                        let t: String = a.attrs.iter().map(|a| text(a)).collect();
                        w.str(&t);
                    }
                    w.close();
                });
            }
            Expr::Loop(x) => {
                self.open("loop", sp);
                self.c();
                self.block(&x.body);
            }
            Expr::While(x) => {
                self.open("while", sp);
                self.c();
                self.expr(&x.cond);
                self.c();
                self.block(&x.body);
            }
            Expr::ForLoop(x) => {
                self.open("for", sp);
                self.c();
                self.pat(&x.pat);
                self.c();
                self.expr(&x.expr);
                self.c();
                self.block(&x.body);
            }
            Expr::Closure(x) => {
                self.open("closure", sp);
                self.c();
                self.list(&x.inputs, |w, p| w.pat(p));
                self.c();
                self.expr(&x.body);
            }
            Expr::Macro(x) => return self.mac(&x.mac),
            Expr::Try(x) => {
                self.open("try", sp);
                self.c();
                self.expr(&x.expr);
            }
            Expr::Return(x) => {
                self.open("return", sp);
                self.c();
                self.opt(x.expr.as_ref(), |w, e| w.expr(e));
            }
            Expr::Break(x) => {
                self.open("break", sp);
                self.c();
                self.opt(x.label.as_ref(), |w, l| w.text(l));
                self.c();
                self.opt(x.expr.as_ref(), |w, e| w.expr(e));
            }
            Expr::Continue(x) => {
                self.open("continue", sp);
                self.c();
                self.opt(x.label.as_ref(), |w, l| w.text(l));
            }
            Expr::Let(x) => {
                self.open("let", sp);
                self.c();
                self.pat(&x.pat);
                self.c();
                self.expr(&x.expr);
            }
            Expr::Reference(x) => {
                self.open("ref", sp);
                self.c();
                self.s.push_str(if x.mutability.is_some() { "true" } else { "false" });
                self.c();
                self.expr(&x.expr);
            }
            Expr::Tuple(x) => {
                self.open("tuple", sp);
                self.c();
                self.list(&x.elems, |w, e| w.expr(e));
            }
            Expr::Array(x) => {
                self.open("array", sp);
                self.c();
                self.list(&x.elems, |w, e| w.expr(e));
            }
            Expr::Repeat(x) => {
                self.open("repeat", sp);
                self.c();
                self.expr(&x.expr);
                self.c();
                self.expr(&x.len);
            }
            Expr::Struct(x) => {
                self.open("struct", sp);
                self.c();
                self.text(&x.path);
                self.c();
                self.list(&x.fields, |w, f| {
                    w.s.push('[');
                    w.text(&f.member);
                    w.c();
                    w.expr(&f.expr);
                    w.s.push(']');
                });
                self.c();
                self.opt(x.rest.as_ref(), |w, e| w.expr(e));
            }
            Expr::Cast(x) => {
                self.open("cast", sp);
                self.c();
                self.expr(&x.expr);
                self.c();
                self.text(&x.ty);
            }
            Expr::Range(x) => {
                self.open("range", sp);
                self.c();
                self.opt(x.start.as_ref(), |w, e| w.expr(e));
                self.c();
                self.opt(x.end.as_ref(), |w, e| w.expr(e));
                self.c();
                self.s.push_str(if matches!(x.limits, RangeLimits::Closed(_)) { "true" } else { "false" });
            }
            e => {
                self.open("other", sp);
                self.c();
                self.text(e);
            }
        }
        self.close();
    }

    fn pat(&mut self, p: &Pat) {
        let sp = p.span();
        match p {
            Pat::Paren(x) => return self.pat(&x.pat),
            Pat::Ident(x) => {
                self.open("pident", sp);
                self.c();
                self.str(&x.ident.to_string());
                self.c();
                self.opt(x.subpat.as_ref(), |w, s| w.pat(&s.1));
            }
            Pat::TupleStruct(x) => {
                self.open("pts", sp);
                self.c();
                self.text(&x.path);
                self.c();
                self.list(&x.elems, |w, e| w.pat(e));
            }
            Pat::Struct(x) => {
                self.open("pstruct", sp);
                self.c();
                self.text(&x.path);
                self.c();
                self.list(&x.fields, |w, f| {
                    w.s.push('[');
                    w.text(&f.member);
                    w.c();
                    w.pat(&f.pat);
                    w.s.push(']');
                });
                self.c();
                self.s.push_str(if x.rest.is_some() { "true" } else { "false" });
            }
            Pat::Path(x) => {
                self.open("ppath", sp);
                self.c();
                self.text(x);
            }
            Pat::Lit(x) => {
                self.open("plit", sp);
                self.c();
                match &x.lit {
                    Lit::Int(i) => match i.base10_parse::<u128>() {
                        Ok(v) => {
                            let _ = write!(self.s, "{}", v);
                        }
                        Err(_) => self.text(i),
                    },
                    l => self.text(l),
                }
            }
            Pat::Wild(_) => self.open("pwild", sp),
            Pat::Rest(_) => self.open("prest", sp),
            Pat::Or(x) => {
                self.open("por", sp);
                self.c();
                self.list(&x.cases, |w, e| w.pat(e));
            }
            Pat::Tuple(x) => {
                self.open("ptuple", sp);
                self.c();
                self.list(&x.elems, |w, e| w.pat(e));
            }
            Pat::Reference(x) => return self.pat(&x.pat),
            Pat::Type(x) => {
                self.open("ptype", sp);
                self.c();
                self.pat(&x.pat);
                self.c();
                self.text(&x.ty);
            }
            Pat::Range(x) => {
                self.open("prange", sp);
                self.c();
                self.opt(x.start.as_ref(), |w, e| w.expr(e));
                self.c();
                self.opt(x.end.as_ref(), |w, e| w.expr(e));
                self.c();
                self.s.push_str(if matches!(x.limits, RangeLimits::Closed(_)) { "true" } else { "false" });
            }
            Pat::Slice(x) => {
                self.open("pslice", sp);
                self.c();
                self.list(&x.elems, |w, e| w.pat(e));
            }
            p => {
                self.open("pother", sp);
                self.c();
                self.text(p);
            }
        }
        self.close();
    }

    fn attrs(&mut self, a: &[Attribute]) {
        self.list(a.iter().filter(|a| !a.path().is_ident("doc")), |w, a| w.text(&a.meta));
    }

    fn func(&mut self, kind: &str, attrs: &[Attribute], sig: &Signature, body: Option<&Block>) {
        self.open(kind, sig.ident.span());
        self.c();
        self.str(&sig.ident.to_string());
        self.c();
        self.attrs(attrs);
        self.c();
        self.list(&sig.inputs, |w, i| match i {
            FnArg::Receiver(r) => {
                w.s.push('[');
                w.str("self");
                w.c();
                w.text(r);
                w.s.push(']');
            }
            FnArg::Typed(t) => {
                w.s.push('[');
                w.text(&t.pat);
                w.c();
                w.text(&t.ty);
                w.s.push(']');
            }
        });
        self.c();
        match &sig.output {
            ReturnType::Default => self.str("()"),
            ReturnType::Type(_, t) => self.text(t),
        }
        self.c();
        self.opt(body, |w, b| w.block(b));
        self.close();
    }

    fn fields(&mut self, f: &Fields) {
        let mut i = 0;
        self.list(f, |w, x| {
            w.s.push('[');
            match &x.ident {
                Some(n) => w.str(&n.to_string()),
                None => w.str(&i.to_string()),
            }
            w.c();
            w.text(&x.ty);
            w.s.push(']');
            i += 1;
        });
    }

    fn item(&mut self, i: &Item) {
        let sp = i.span();
        match i {
            Item::Fn(f) => self.func("fn", &f.attrs, &f.sig, Some(&f.block)),
            Item::Struct(x) => {
                self.open("structdef", sp);
                self.c();
                self.str(&x.ident.to_string());
                self.c();
                self.attrs(&x.attrs);
                self.c();
                self.fields(&x.fields);
                self.close();
            }
            Item::Union(x) => {
                self.open("uniondef", sp);
                self.c();
                self.str(&x.ident.to_string());
                self.c();
                self.attrs(&x.attrs);
                self.c();
                self.fields(&Fields::Named(x.fields.clone()));
                self.close();
            }
            Item::Enum(x) => {
                self.open("enumdef", sp);
                self.c();
                self.str(&x.ident.to_string());
                self.c();
                self.attrs(&x.attrs);
                self.c();
                self.list(&x.variants, |w, v| {
                    w.s.push('[');
                    w.str(&v.ident.to_string());
                    w.c();
                    w.fields(&v.fields);
                    w.c();
                    w.opt(v.discriminant.as_ref(), |w, d| w.expr(&d.1));
                    w.s.push(']');
                });
                self.close();
            }
            Item::Impl(x) => {
                self.open("impl", sp);
                self.c();
                self.text(&*x.self_ty);
                self.c();
                self.opt(x.trait_.as_ref(), |w, t| w.text(&t.1));
                self.c();
                self.attrs(&x.attrs);
                self.c();
                self.list(&x.items, |w, i| match i {
                    ImplItem::Fn(f) => w.func("fn", &f.attrs, &f.sig, Some(&f.block)),
                    ImplItem::Const(k) => {
                        w.open("const", k.span());
                        w.c();
                        w.str(&k.ident.to_string());
                        w.c();
                        w.text(&k.ty);
                        w.c();
                        w.expr(&k.expr);
                        w.close();
                    }
                    i => {
                        w.open("otheritem", i.span());
                        w.c();
                        w.text(i);
                        w.close();
                    }
                });
                self.close();
            }
            Item::Trait(x) => {
                self.open("trait", sp);
                self.c();
                self.str(&x.ident.to_string());
                self.c();
                self.list(&x.items, |w, i| match i {
                    TraitItem::Fn(f) => w.func("fn", &f.attrs, &f.sig, f.default.as_ref()),
                    i => {
                        w.open("otheritem", i.span());
                        w.c();
                        w.text(i);
                        w.close();
                    }
                });
                self.close();
            }
            Item::Const(k) => {
                self.open("const", sp);
                self.c();
                self.str(&k.ident.to_string());
                self.c();
                self.text(&*k.ty);
                self.c();
                self.expr(&k.expr);
                self.close();
            }
            Item::Static(k) => {
                self.open("static", sp);
                self.c();
                self.str(&k.ident.to_string());
                self.c();
                self.text(&*k.ty);
                self.c();
                self.expr(&k.expr);
                self.close();
            }
            Item::Mod(m) => {
                self.open("mod", sp);
                self.c();
                self.str(&m.ident.to_string());
                self.c();
                self.attrs(&m.attrs);
                self.c();
                self.opt(m.content.as_ref(), |w, c| w.list(&c.1, |w, i| w.item(i)));
                self.close();
            }
            Item::Macro(m) => {
                self.open("macroitem", sp);
                self.c();
                self.opt(m.ident.as_ref(), |w, i| w.str(&i.to_string()));
                self.c();
                self.mac(&m.mac);
                self.close();
            }
            Item::Type(t) => {
                self.open("type", sp);
                self.c();
                self.str(&t.ident.to_string());
                self.c();
                self.text(&*t.ty);
                self.close();
            }
            Item::Use(u) => {
                self.open("use", sp);
                self.c();
                self.text(&u.tree);
                self.close();
            }
            i => {
                self.open("otheritem", sp);
                self.c();
                self.text(i);
                self.close();
            }
        }
    }
}

fn line_of(s: Span) -> Span {
    s
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for q in v {
        if q.is_dir() {
            walk(&q, out);
        } else if q.extension().is_some_and(|e| e == "rs") {
            out.push(q);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = Path::new(&a[2]);
    let mut files = vec![];
    walk(root, &mut files);
    let mut w = W { s: String::new() };
    w.s.push('{');
    let mut first = true;
    let mut bad = 0;
    for f in &files {
        let src = std::fs::read_to_string(f).unwrap();
        match syn::parse_file(&src) {
            Ok(t) => {
                if !first {
                    w.c();
                }
                first = false;
                w.str(&f.strip_prefix(root).unwrap().to_string_lossy());
                w.s.push(':');
                w.list(&t.items, |w, i| w.item(i));
            }
            Err(e) => {
                eprintln!("{}: {}", f.display(), e);
                bad += 1;
            }
        }
    }
    w.s.push('}');
    std::fs::write(&a[1], w.s).unwrap();
    if bad > 0 {
        std::process::exit(1);
    }
}
