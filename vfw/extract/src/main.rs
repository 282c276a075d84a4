//! vextract UNIT.vrs REPO OUT.rs OUT.json
//!
//! Builds one Verus file from a unit template. Lines of the template that do not start with `//@` are copied. The
//! directives extract items from /repo's source as it is now and attach contracts to them; see DESIGN.md ("What the
//! extraction changes") for the list of rewrites, which is the list of passes in this file.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn lost(m: impl AsRef<str>) -> ! {
    println!("{}", serde_json::json!({"lost": m.as_ref()}));
    std::process::exit(3)
}

fn norm(t: &impl ToTokens) -> String { t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join(" ") }
fn norm_str(s: &str) -> String { s.parse::<TokenStream>().map(|t| norm(&t)).unwrap_or_else(|_| s.to_string()) }

// ---------------------------------------------------------------- sources
#[derive(Clone)]
struct Source { path: String, items: Vec<Item> }

fn flatten(items: Vec<Item>, out: &mut Vec<Item>) {
    for i in items {
        match i {
            Item::Mod(m) if !is_test(&m.attrs) => { if let Some((_, c)) = m.content { flatten(c, out) } }
            i => out.push(i),
        }
    }
}
fn is_test(a: &[Attribute]) -> bool { a.iter().any(|a| a.path().is_ident("cfg") && (norm(&a.meta).contains("test") || norm(&a.meta).contains("kani"))) }
fn item_attrs(i: &Item) -> &[Attribute] {
    match i { Item::Fn(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Struct(x) => &x.attrs, Item::Enum(x) => &x.attrs, Item::Const(x) => &x.attrs, Item::Mod(x) => &x.attrs, Item::Type(x) => &x.attrs, Item::Trait(x) => &x.attrs, _ => &[] }
}

/// Names that are keywords of the verifier get an underscore
fn keywords(ts: TokenStream) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) if i == "proof" || i == "tracked" || i == "ghost" => TokenTree::Ident(Ident::new(&format!("{i}_"), i.span())),
        TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), keywords(g.stream())); n.set_span(g.span()); TokenTree::Group(n) }
        t => t,
    }).collect()
}
fn subst(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let v: Vec<_> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    if n == "crate" { out.extend(quote!(crate)); i += 2; continue; }
                    match m.get(&n.to_string()) { Some(t) => out.extend(t.clone()), None => lost(format!("macro variable ${n}")) }
                    i += 2;
                    continue;
                }
                lost("macro repetition in an expanded macro");
            }
        }
        match &v[i] {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), subst(g.stream(), m)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]) }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

fn same_token(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => { let (p, q): (Vec<_>, Vec<_>) = (x.stream().into_iter().collect(), y.stream().into_iter().collect()); x.delimiter() == y.delimiter() && p.len() == q.len() && p.iter().zip(&q).all(|(a, b)| same_token(a, b)) }
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        (x, y) => x.to_string() == y.to_string(),
    }
}
fn replace_tokens(ts: TokenStream, from: &[TokenTree], to: &TokenStream, n: &mut usize) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if v.len() - i >= from.len() && from.iter().zip(&v[i..]).all(|(a, b)| same_token(a, b)) { out.extend(to.clone()); *n += 1; i += from.len(); continue; }
        match &v[i] {
            TokenTree::Group(g) => { let mut m = Group::new(g.delimiter(), replace_tokens(g.stream(), from, to, n)); m.set_span(g.span()); out.extend([TokenTree::Group(m)]) }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

/// Expands the single-arm macro_rules `name` of the source with `args` (separated by commas), as the compiler does.
fn expand(src: &mut Source, name: &str, args: &[String]) {
    let mac = src.items.iter().find_map(|i| match i { Item::Macro(m) if m.ident.as_ref().is_some_and(|i| i == name) => Some(m.mac.tokens.clone()), _ => None })
        .unwrap_or_else(|| lost(format!("macro {name} in {}", src.path)));
    // the source itself must make this expansion
    let want = args.iter().map(|a| a.split_whitespace().collect::<String>()).collect::<Vec<_>>().join(",");
    let made = src.items.iter().any(|i| matches!(i, Item::Macro(m) if m.ident.is_none() && m.mac.path.segments.last().is_some_and(|s| s.ident == name) && m.mac.tokens.to_string().split_whitespace().collect::<String>().trim_end_matches(',') == want));
    if !made { lost(format!("no {name}!({want}) in {}", src.path)) }
    let v: Vec<_> = mac.into_iter().collect();
    let (TokenTree::Group(pat), TokenTree::Group(body)) = (&v[0], v.iter().skip(1).find(|t| matches!(t, TokenTree::Group(_))).unwrap_or_else(|| lost("macro body"))) else { lost("macro arm") };
    let groups = v.iter().filter(|t| matches!(t, TokenTree::Group(_))).count();
    if groups != 2 { lost(format!("macro {name} has more than one arm")) }
    let mut names = vec![];
    let p: Vec<_> = pat.stream().into_iter().collect();
    let mut i = 0;
    while i < p.len() {
        if let TokenTree::Punct(x) = &p[i] { if x.as_char() == '$' { if let Some(TokenTree::Ident(n)) = p.get(i + 1) { names.push(n.to_string()); i += 4; continue; } } }
        i += 1;
    }
    if names.len() != args.len() { lost(format!("macro {name}: {} parameters", names.len())) }
    let m = names.into_iter().zip(args.iter().map(|a| a.parse::<TokenStream>().expect("macro argument"))).collect();
    let ts = subst(body.stream(), &m);
    let f: File = parse2(ts).unwrap_or_else(|e| lost(format!("expansion of {name}: {e}")));
    flatten(f.items, &mut src.items);
}

fn find_impl<'a>(s: &'a Source, head: &str) -> Vec<&'a ItemImpl> {
    let squeeze = |s: &str| s.split_whitespace().collect::<String>();
    let want = squeeze(head);
    let mut out = vec![];
    for i in &s.items {
        if let Item::Impl(im) = i {
            if !is_test(&im.attrs) && squeeze(&impl_head(im)) == want { out.push(im) }
        }
    }
    out
}
fn impl_head(im: &ItemImpl) -> String {
    let mut x = im.clone();
    x.items.clear();
    x.attrs.clear();
    let s = norm(&x);
    s.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').trim().to_string()
}

// ---------------------------------------------------------------- function directives
#[derive(Default, Clone)]
struct FnSpec {
    name: String, ret: Option<String>, contract: Vec<String>, loops: BTreeMap<usize, Vec<String>>, expect_loops: Option<String>,
    proofs: Vec<(String, Vec<String>)>, opts: Vec<String>, attrs: Vec<String>, trusted: bool, emit_as: Option<String>,
    subst: Vec<(String, String)>, methods: Vec<(String, String)>, retype: Option<String>, argtypes: Vec<(String, String)>, bounds: Vec<(String, String)>, mono: Vec<(Vec<String>, TokenStream)>, index: Vec<String>, signs: Vec<(String, String)>,
}
struct MethodPass<'a>(&'a [(String, String)]);
impl<'a> VisitMut for MethodPass<'a> {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        for (a, b) in self.0 { if m.method == a { m.method = Ident::new(b, m.method.span()); } }
    }
}

struct Ctx { sources: BTreeMap<String, Source>, paths: Vec<(Vec<String>, TokenStream)>, known: std::collections::BTreeSet<String>, notes: Vec<String>, traits_spec: bool, mono: Vec<(Vec<String>, TokenStream)>, inlines: BTreeMap<String, (Signature, Block, bool)>, mono_saved: Vec<(Vec<String>, TokenStream)> }
impl Ctx {
    /// the path rewrites, with the type parameters that this unit instantiates
    fn all_paths(&self) -> Vec<(Vec<String>, TokenStream)> { self.mono.iter().chain(self.paths.iter()).cloned().collect() }
    fn drop_generics(&self, g: &mut Generics) {
        let names: Vec<&String> = self.mono.iter().map(|m| &m.0[0]).collect();
        g.params = std::mem::take(&mut g.params).into_iter().filter(|p| !matches!(p, GenericParam::Type(t) if names.contains(&&t.ident.to_string()))).collect();
        if let Some(w) = &mut g.where_clause { w.predicates = std::mem::take(&mut w.predicates).into_iter().filter(|p| !matches!(p, WherePredicate::Type(t) if norm(&t.bounded_ty).split_whitespace().any(|x| names.iter().any(|n| *n == x)))).collect(); if w.predicates.is_empty() { g.where_clause = None; } }
        if g.params.is_empty() { g.lt_token = None; g.gt_token = None; }
    }
}

// ---------------------------------------------------------------- passes over bodies
struct TailBreak;
impl VisitMut for TailBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Break(b) if b.label.is_none() && b.expr.is_some() => { let x = b.expr.take().unwrap(); *e = parse_quote!(return #x); }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
struct Fresh(usize);
impl Fresh { fn id(&mut self, p: &str) -> Ident { self.0 += 1; Ident::new(&format!("vf_{p}{}", self.0), proc_macro2::Span::call_site()) } }

struct StripPass<'a> { paths: &'a [(Vec<String>, TokenStream)] }
impl<'a> VisitMut for StripPass<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        // log lines
        b.stmts.retain(|s| !matches!(s, Stmt::Macro(m) if m.mac.path.segments.len() == 2 && m.mac.path.segments[0].ident == "log" && !early_exit(&m.mac.tokens)));
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // TapLog: writes a log line and gives back its receiver
        while let Expr::MethodCall(m) = e {
            if !matches!(m.method.to_string().as_str(), "log_err" | "log_warn" | "log_err_pfx" | "log_warn_pfx") || m.args.iter().any(|a| !matches!(a, Expr::Lit(_))) { break }
            let inner = (*m.receiver).clone();
            *e = inner;
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<_> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        for (from, to) in self.paths {
            if segs.len() >= from.len() && segs[..from.len()] == from[..] {
                let rest: Vec<_> = p.segments.iter().skip(from.len()).cloned().collect();
                let last_args = p.segments[from.len() - 1].arguments.clone();
                let mut np: Path = match parse2(to.clone()) { Ok(x) => x, Err(_) => continue };
                if let (Some(l), false) = (np.segments.last_mut(), last_args.is_none()) { if l.arguments.is_none() { l.arguments = last_args } }
                for r in rest { np.segments.push(r) }
                *p = np;
                return;
            }
        }
    }
}

/// Option/Result combinators with a closure (or a path) become the match that their definition is; bool::then and
/// then_some become if; assert!, panic! and the like become calls whose precondition says that they do not fire.
struct Desugar<'a> { f: &'a mut Fresh, result_default: &'a Rets, notes: &'a mut Vec<String> }

#[derive(PartialEq, Clone, Copy)]
enum Kind { Opt, Res, Other }
/// The functions of the sources that return Option or Result, by name; and what is assumed of others
struct Rets { res: bool, by_name: BTreeMap<String, Option<bool>> }
fn rets(sources: &BTreeMap<String, Source>, res: bool) -> Rets {
    let mut by_name: BTreeMap<String, Option<bool>> = BTreeMap::new();
    let mut put = |sig: &Signature, this: &str| {
        let o = norm(&sig.output).replace("Self :: Output", this);
        let head = o.strip_prefix("-> ").unwrap_or("").split(" <").next().unwrap_or("").rsplit(":: ").next().unwrap_or("").trim().to_string();
        let k = if head == "Result" { Some(true) } else if head == "Option" { Some(false) } else { None };
        by_name.entry(sig.ident.to_string()).and_modify(|x| if *x != k { *x = None }).or_insert(k);
    };
    for s in sources.values() { for i in &s.items { match i {
        Item::Fn(f) if !is_test(&f.attrs) => put(&f.sig, ""),
        Item::Impl(im) if !is_test(&im.attrs) => for x in &im.items { if let ImplItem::Fn(f) = x { put(&f.sig, "") } },
        _ => {}
    } } }
    Rets { res, by_name }
}
fn kind(e: &Expr, rs: &Rets) -> Kind {
    let d = rs.res;
    let by = |n: &str| match rs.by_name.get(n) { Some(Some(true)) => Kind::Res, Some(Some(false)) => Kind::Opt, _ => if d { Kind::Res } else { Kind::Opt } };
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                _ if n.starts_with("checked_") => Kind::Opt,
                "ok" | "get" | "first" | "last" | "checked_add" | "then" | "then_some" | "err" | "get_mut" | "as_ref" | "as_mut" | "copied" | "cloned" => Kind::Opt,
                "ok_or" | "ok_or_else" | "map_err" | "try_into" => Kind::Res,
                "map" | "and_then" | "or_else" | "filter" => kind(&m.receiver, rs),
                n => by(n),
            }
        }
        Expr::Call(c) => match norm(&c.func) { s if s.ends_with("try_from") => Kind::Res, s if s == "Some" => Kind::Opt, s if s == "Ok" || s == "Err" => Kind::Res, s => by(s.rsplit(":: ").next().unwrap_or("")) },
        Expr::Paren(p) => kind(&p.expr, rs),
        Expr::Match(m) if m.arms.iter().any(|a| matches!(&*a.body, Expr::Call(c) if { let s = norm(&c.func); s == "Ok" || s == "Err" })) => Kind::Res,
        Expr::Match(m) if m.arms.iter().any(|a| match &*a.body { Expr::Call(c) => norm(&c.func) == "Some", Expr::Path(p) => p.path.is_ident("None"), _ => false }) => Kind::Opt,
        Expr::Range(_) => Kind::Other,
        _ => if d { Kind::Res } else { Kind::Opt },
    }
}
fn early_exit(t: &impl ToTokens) -> bool {
    fn go(ts: TokenStream) -> bool {
        ts.into_iter().any(|t| match t { TokenTree::Ident(i) => i == "return" || i == "break" || i == "continue", TokenTree::Punct(p) => p.as_char() == '?', TokenTree::Group(g) => go(g.stream()), _ => false })
    }
    go(t.to_token_stream())
}
/// Applies a closure or function path to an argument expression.
fn apply(f: &Expr, arg: TokenStream) -> Option<(Option<Pat>, TokenStream)> {
    let _ = &arg;
    match f {
        Expr::Closure(c) => {
            if c.inputs.len() != 1 || early_exit(&c.body) { return None; }
            let pat = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            let b = &c.body;
            Some((Some(pat), quote!(#b)))
        }
        Expr::Path(p) => Some((None, quote!(#p(#arg)))),
        _ => None,
    }
}
impl<'a> VisitMut for Desugar<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = mac_expr(&m.mac, self.f) {
                *s = Stmt::Expr(e, Some(Default::default()));
            } else if m.mac.path.segments.last().is_some_and(|x| x.ident.to_string().starts_with("__vf")) { return; }
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = mac_expr(&m.mac, self.f) { *e = n }
        }
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = &*e else { return };
        let n = m.method.to_string();
        let recv = &*m.receiver;
        let k = kind(recv, self.result_default);
        let a: Vec<&Expr> = m.args.iter().collect();
        let v = self.f.id("v");
        let x = self.f.id("e");
        let new: Option<TokenStream> = match (n.as_str(), a.len()) {
            ("map", 1) if k != Kind::Other => apply(a[0], quote!(#v)).map(|(p, b)| {
                let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#v));
                if k == Kind::Opt { quote!(match #recv { Some(#p) => Some(#b), None => None }) } else { quote!(match #recv { Ok(#p) => Ok(#b), Err(#x) => Err(#x) }) }
            }),
            ("map_err", 1) => apply(a[0], quote!(#x)).map(|(p, b)| { let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#x)); quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }) }),
            ("and_then", 1) => apply(a[0], quote!(#v)).map(|(p, b)| {
                let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#v));
                if k == Kind::Opt { quote!(match #recv { Some(#p) => #b, None => None }) } else { quote!(match #recv { Ok(#p) => #b, Err(#x) => Err(#x) }) }
            }),
            ("ok_or", 1) => { let d = a[0]; Some(quote!(match #recv { Some(#v) => Ok(#v), None => Err(#d) })) }
            ("ok_or_else", 1) => zero(a[0]).map(|b| quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) })),
            ("unwrap_or_else", 1) if k == Kind::Opt => zero(a[0]).map(|b| quote!(match #recv { Some(#v) => #v, None => #b })),
            ("unwrap_or_else", 1) if k == Kind::Res => apply(a[0], quote!(#x)).map(|(p, b)| { let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#x)); quote!(match #recv { Ok(#v) => #v, Err(#p) => #b }) }),
            ("unwrap_or", 1) if k == Kind::Res => { let d = a[0]; Some(quote!(match #recv { Ok(#v) => #v, Err(_) => #d })) }
            ("unwrap_or", 1) if k == Kind::Opt => { let d = a[0]; Some(quote!(match #recv { Some(#v) => #v, None => #d })) }
            ("is_some_and", 1) => apply(a[0], quote!(#v)).map(|(p, b)| { let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#v)); quote!(match #recv { Some(#p) => #b, None => false }) }),
            ("is_none_or", 1) => apply(a[0], quote!(#v)).map(|(p, b)| { let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#v)); quote!(match #recv { Some(#p) => #b, None => true }) }),
            ("map_or", 2) if k == Kind::Opt => { let d = a[0]; apply(a[1], quote!(#v)).map(|(p, b)| { let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#v)); quote!(match #recv { Some(#p) => #b, None => #d }) }) }
            ("map_or_else", 2) if k == Kind::Opt => match (zero(a[0]), apply(a[1], quote!(#v))) { (Some(d), Some((p, b))) => { let p = p.map(|p| quote!(#p)).unwrap_or(quote!(#v)); Some(quote!(match #recv { Some(#p) => #b, None => #d })) } _ => None },
            ("filter", 1) if k == Kind::Opt => apply(a[0], quote!(&#v)).map(|(p, b)| { let p = p.map(|p| match &p { Pat::Reference(r) => { let q = &r.pat; quote!(let #q = #v;) } p => quote!(let #p = &#v;) }).unwrap_or_default(); quote!(match #recv { Some(#v) => { if { #p #b } { Some(#v) } else { None } }, None => None }) }),
            ("or_else", 1) if k == Kind::Opt => zero(a[0]).map(|b| quote!(match #recv { Some(#v) => Some(#v), None => #b })),
            ("fold", 2) => match a[1] {
                Expr::Closure(c) if c.inputs.len() == 2 && !early_exit(&c.body) => {
                    let (init, p0, p1, b) = (a[0], &c.inputs[0], &c.inputs[1], &c.body);
                    let p0 = match p0 { Pat::Type(t) => &*t.pat, p => p };
                    let p1 = match p1 { Pat::Type(t) => &*t.pat, p => p };
                    let src = match recv { Expr::Paren(p) => &*p.expr, e => e };
                    if let Pat::Ident(i) = p0 { let i = &i.ident; Some(quote!({ let mut #i = #init; for #p1 in #src { #i = #b; } #i })) } else { None }
                }
                _ => None,
            },
            ("then", 1) => zero(a[0]).map(|b| quote!(if #recv { Some(#b) } else { None })),
            ("then_some", 1) => { let d = a[0]; Some(quote!({ let #x = #recv; let #v = #d; if #x { Some(#v) } else { None } })) }
            _ => None,
        };
        if let Some(t) = new {
            self.notes.push(format!("combinator .{n}() rewritten to its definition"));
            *e = parse2::<Expr>(quote!((#t))).unwrap_or_else(|er| lost(format!("desugar: {er}")));
        }
    }
}
fn zero(f: &Expr) -> Option<TokenStream> {
    match f { Expr::Closure(c) if c.inputs.is_empty() && !early_exit(&c.body) => { let b = &c.body; Some(quote!(#b)) } Expr::Path(p) => Some(quote!(#p())), _ => None }
}
fn split_comma(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![TokenStream::new()];
    for t in ts { if let TokenTree::Punct(p) = &t { if p.as_char() == ',' { out.push(TokenStream::new()); continue; } } out.last_mut().unwrap().extend([t]); }
    if out.last().unwrap().is_empty() { out.pop(); }
    out
}
fn mac_expr(m: &Macro, f: &mut Fresh) -> Option<Expr> {
    let n = m.path.segments.last()?.ident.to_string();
    let a = split_comma(m.tokens.clone());
    let t = match n.as_str() {
        "assert" | "debug_assert" => { let c = a.first()?; quote!(vf_assert(#c)) }
        "assert_eq" | "debug_assert_eq" => { let (x, y) = (a.first()?, a.get(1)?); quote!(vf_assert(#x == #y)) }
        "assert_ne" | "debug_assert_ne" => { let (x, y) = (a.first()?, a.get(1)?); quote!(vf_assert(#x != #y)) }
        "panic" | "unreachable" | "unimplemented" | "todo" => quote!(vf_panic()),
        // utils::ensure!
        "ensure" if a.len() == 2 => { let (c, e) = (&a[0], &a[1]); quote!(if !(#c) { Err::<(), _>(#e)?; }) }
        "ensure" if a.len() == 1 => { let c = &a[0]; quote!(if !(#c) { return None; }) }
        "matches" => { let e = a.first()?; let mut rest = TokenStream::new(); for (i, x) in a[1..].iter().enumerate() { if i > 0 { rest.extend(quote!(,)) } rest.extend(x.clone()) } quote!((match #e { #rest => true, _ => false })) }
        "amount_sum" => { let mut it = a.iter(); let f0 = it.next()?; let mut acc = quote!(Some(#f0)); for x in it { let v = f.id("s"); acc = quote!((match #acc { Some(#v) => #v + #x, None => None })) } acc }
        _ => return None,
    };
    parse2(t).ok()
}

/// Forms that the verifier lacks: `let &X(ref a) = e` is `let a = &e.0`; constants inside a body are lets; copy_from_slice
/// into a range of an array is a call of vf_copy with the ends of the range; indexing of a newtype (`. index NAMES`) is
/// indexing of its field.
struct Shapes<'a> { index: &'a [String] }
impl<'a> VisitMut for Shapes<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Item(Item::Const(c)) = s { let (n, t, e) = (&c.ident, &c.ty, &c.expr); *s = parse_quote!(let #n: #t = #e;); }
        if let Stmt::Local(l) = s {
            let p = match &l.pat { Pat::Reference(r) => &*r.pat, p => p };
            if let Pat::TupleStruct(t) = p { if let (1, Some(Pat::Ident(i))) = (t.elems.len(), t.elems.first()) { if i.mutability.is_none() && (i.by_ref.is_some() || matches!(l.pat, Pat::Reference(_))) {
                if let Some(init) = &l.init { if init.diverge.is_none() {
                    let (n, e) = (&i.ident, &init.expr);
                    *s = if i.by_ref.is_some() { parse_quote!(let #n = &(#e).0;) } else { parse_quote!(let #n = (#e).0;) };
                } }
            } } }
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(x) = e { if let Expr::Path(p) = &*x.expr { if p.path.get_ident().is_some_and(|i| self.index.iter().any(|n| i == n)) { let b = x.expr.clone(); *x.expr = parse_quote!(#b.0); } } }
        let Expr::MethodCall(m) = &*e else { return };
        if m.method != "copy_from_slice" || m.args.len() != 1 { return }
        let mut r = &*m.receiver;
        while let Expr::Paren(p) = r { r = &p.expr }
        if let Expr::Reference(x) = r { r = &x.expr }
        let Expr::Index(ix) = r else { return };
        let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index else { return };
        let (arr, src) = (&ix.expr, &m.args[0]);
        // (the argument's own range, so that it is a sequence and not a slice of one)
        let s = match src { Expr::Reference(x) => match &*x.expr { Expr::Index(y) => match &*y.index { Expr::Range(ExprRange { start: Some(c), end: Some(d), limits: RangeLimits::HalfOpen(_), .. }) => { let z = &y.expr; Some(quote!(&#z, #c, #d)) } _ => None }, _ => None }, _ => None };
        *e = match s { Some(s) => parse_quote!(vf_copy(&mut #arr, #a, #b, #s)), None => parse_quote!(vf_fill(&mut #arr, #a, #b, #src)) };
    }
}

/// Marks loops; desugars `for` over slice iterators.
struct Loops { n: usize, kinds: Vec<String>, want: std::collections::BTreeSet<usize>, marks: Vec<(usize, String)> }
fn semi(b: &mut Block) { if let Some(Stmt::Expr(_, s @ None)) = b.stmts.last_mut() { *s = Some(Default::default()); } }
impl VisitMut for Loops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let k = match &s { Stmt::Expr(Expr::ForLoop(_) | Expr::While(_), _) => Some(self.n), Stmt::Expr(Expr::Loop(_), Some(_)) => Some(self.n), _ => None };
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if let Some(k) = k { out.push(parse_quote!(__vf_loopafter!(#k);)) }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let k = self.n;
        let mk = |p: &str| -> Stmt { let id = Ident::new(&format!("__vf_{p}"), proc_macro2::Span::call_site()); parse_quote!(#id!(#k);) };
        match e {
            Expr::ForLoop(l) => {
                self.n += 1;
                self.kinds.push(format!("for {} in {}", norm(&l.pat), norm(&l.expr)));
                semi(&mut l.body); l.body.stmts.insert(0, mk("loopstart"));
                l.body.stmts.push(mk("loopend"));
            }
            Expr::While(l) => { self.n += 1; self.kinds.push(format!("while {}", norm(&l.cond))); semi(&mut l.body); l.body.stmts.insert(0, mk("loopstart")); l.body.stmts.push(mk("loopend")); }
            Expr::Loop(l) => { self.n += 1; self.kinds.push("loop".into()); semi(&mut l.body); l.body.stmts.insert(0, mk("loopstart")); l.body.stmts.push(mk("loopend")); }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
/// `for (i, x) in EXPR.iter().enumerate()` and `for x in EXPR.iter()` become index loops.
struct ForIter<'a> { f: &'a mut Fresh, notes: &'a mut Vec<String> }
impl<'a> VisitMut for ForIter<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::ForLoop(l) = e else { return };
        let (mut src, mut enumerate) = ((*l.expr).clone(), false);
        if let Expr::MethodCall(m) = &src { if m.method == "enumerate" && m.args.is_empty() { enumerate = true; src = (*m.receiver).clone(); } }
        let mut take: Option<Expr> = None;
        if let Expr::MethodCall(m) = &src { if m.method == "take" && m.args.len() == 1 { take = Some(m.args[0].clone()); src = (*m.receiver).clone(); } }
        let base = match &src {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (*m.receiver).clone(),
            Expr::Reference(r) if r.mutability.is_none() && !enumerate => (*r.expr).clone(),
            _ => return,
        };
        let body = &l.body;
        let (ip, xp): (Ident, TokenStream) = if enumerate {
            let Pat::Tuple(t) = &*l.pat else { return };
            let Pat::Ident(i) = &t.elems[0] else { return };
            let x = &t.elems[1];
            (i.ident.clone(), quote!(#x))
        } else { let x = &l.pat; (self.f.id("i"), quote!(#x)) };
        self.notes.push("for over a slice iterator rewritten to an index loop".into());
        let end: Expr = match take { Some(n) => parse_quote!(vf_min(#n, (#base).len())), None => parse_quote!((#base).len()) };
        *e = parse_quote!(for #ip in 0..#end { let #xp = &(#base)[#ip]; #body });
    }
}

/// `for i in a..b` becomes the while loop that it is (`. opt forwhile`; the verifier knows nothing of i where a > b).
struct ForWhile { ok: bool }
impl VisitMut for ForWhile {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::ForLoop(l) = e else { return };
        let (Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }), Pat::Ident(i)) = (&*l.expr, &*l.pat) else { return };
        if norm(&l.body).split_whitespace().any(|w| w == "continue") { self.ok = false; return }
        let i = i.ident.clone();
        let mut body = l.body.clone();
        semi(&mut body);
        let stmts = &body.stmts;
        *e = parse_quote!({ let mut #i = #a; while #i < #b { #(#stmts)* #i += 1; } });
    }
}

/// `for PAT in E` becomes the loop over the iterator that it is (`. opt fornext`): `E.vf_iter()` with `vf_next`, named vf_it0, vf_it1, ..
struct ForNext { n: usize, all: bool }
impl VisitMut for ForNext {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let it = match &*e { Expr::ForLoop(l) if self.all || !matches!(&*l.expr, Expr::Range(_)) => { let i = Ident::new(&format!("vf_it{}", self.n), proc_macro2::Span::call_site()); self.n += 1; Some(i) } _ => None };
        visit_mut::visit_expr_mut(self, e);
        let (Some(it), Expr::ForLoop(l)) = (it, &*e) else { return };
        let (p, mut x, mut b, lab) = (&l.pat, &*l.expr, l.body.clone(), &l.label);
        if let Expr::MethodCall(m) = x { if m.method == "into_iter" && m.args.is_empty() { x = &*m.receiver; } }
        semi(&mut b);
        *e = parse_quote!({ let mut #it = (#x).vf_iter(); #lab loop { match #it.vf_next() { Some(#p) => #b, None => break, } }; });
    }
}

/// `E.try_for_each(|p| f)?`, `E.map(|p| Ok(v)).collect::<Result<BTreeMap<_, _>, _>>()?` and the like become the loops that they are:
/// what leaves the closure with an error leaves the function with it.
struct Tries<'a> { notes: &'a mut Vec<String>, eager: bool, lazy: bool }
fn one_arg(f: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Path(p) = f { return Some((parse_quote!(vf_p), parse_quote!(#p(vf_p)))) }
    let Expr::Closure(c) = f else { return None };
    if c.inputs.len() != 1 || has_return(&c.body) { return None }
    let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
    Some((p, (*c.body).clone()))
}
fn has_return(t: &impl ToTokens) -> bool {
    fn go(ts: TokenStream) -> bool { ts.into_iter().any(|t| match t { TokenTree::Ident(i) => i == "return" || i == "break" || i == "continue", TokenTree::Group(g) => go(g.stream()), _ => false }) }
    go(t.to_token_stream())
}
/// the value of an expression that is always Ok
fn of_ok(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Call(c) if norm(&c.func) == "Ok" && c.args.len() == 1 => Some(c.args[0].clone()),
        Expr::Block(b) if b.label.is_none() => { let mut b = b.clone(); let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() else { return None }; *x = of_ok(x)?; Some(Expr::Block(b)) }
        _ => None,
    }
}
impl<'a> Tries<'a> {
    fn each(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        if m.method != "try_for_each" || m.args.len() != 1 { return None }
        let (p, b) = one_arg(&m.args[0])?;
        let r = &m.receiver;
        self.notes.push("try_for_each rewritten to a loop".into());
        Some(match of_ok(&b) { Some(v) => parse_quote!({ for #p in #r { let _ = #v; } }), None => parse_quote!({ for #p in #r { (#b)?; } }) })
    }
    /// a loop over a filter, filter_map or map of an iterator: over the iterator, with the closure's part done in the loop (opt lazy)
    fn drawn(&mut self, l: &mut ExprForLoop) -> bool {
        let Expr::MethodCall(m) = &*l.expr else { return false };
        if m.args.len() != 1 { return false }
        let name = m.method.to_string();
        if !["map", "filter", "filter_map"].contains(&name.as_str()) || !is_iter(&m.receiver) { return false }
        let Some((p, b)) = one_arg(&m.args[0]) else { return false };
        let (r, q, body) = (m.receiver.clone(), l.pat.clone(), l.body.clone());
        self.notes.push(format!("{name} of an iterator done in the loop over it"));
        let (q1, body): (Pat, Block) = match name.as_str() {
            "map" => (p, parse_quote!({ let #q = #b; #body; })),
            "filter" => (parse_quote!(vf_x), parse_quote!({ let vf_c = { let #p = &vf_x; #b }; if vf_c { let #q = vf_x; #body; } })),
            _ => (p, parse_quote!({ let vf_y = #b; if let Some(vf_z) = vf_y { let #q = vf_z; #body; } })),
        };
        *l.pat = q1; *l.expr = *r; l.body = body;
        true
    }
    fn collect(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        if m.method != "collect" { return None }
        let t = norm(m.turbofish.as_ref()?);
        let kind = t.strip_prefix(":: < Result <")?.trim().split(' ').next()?.to_string();
        let kind = if kind == "_" { "Vec".to_string() } else { kind };
        let Expr::MethodCall(mm) = &*m.receiver else { return None };
        if (mm.method != "map" && mm.method != "filter_map") || mm.args.len() != 1 { return None }
        let (p, b) = one_arg(&mm.args[0])?;
        let r = &mm.receiver;
        if mm.method == "filter_map" {
            if kind != "Vec" { return None }
            self.notes.push("filter_map collected into a Vec rewritten to a loop".into());
            return Some(parse_quote!({ let mut vf_m = Vec::new(); for #p in #r { let vf_v = #b; if let Some(vf_w) = vf_v { let vf_x = vf_w?; vf_m.push(vf_x); } } vf_m }));
        }
        let v = of_ok(&b).map(|v| quote!(#v)).unwrap_or(quote!((#b)?));
        self.notes.push(format!("collect into a {kind} rewritten to a loop"));
        Some(match kind.as_str() {
            "BTreeMap" => parse_quote!({ let mut vf_m = BTreeMap::new(); for #p in #r { let (vf_k, vf_v) = #v; let _ = vf_m.insert(vf_k, vf_v); } vf_m }),
            "Vec" => parse_quote!({ let mut vf_m = Vec::new(); for #p in #r { let vf_v = #v; vf_m.push(vf_v); } vf_m }),
            _ => return None,
        })
    }
}
/// `&p` in the patterns of matches: the reference gets a name, and what it points to is taken apart after
struct RefPats { n: usize }
struct RefPat<'a> { n: &'a mut usize, lets: Vec<Stmt> }
impl<'a> VisitMut for RefPat<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p { if r.mutability.is_none() && !matches!(&*r.pat, Pat::Ident(_) | Pat::Wild(_)) || matches!(&*r.pat, Pat::Ident(_)) {
            let v = Ident::new(&format!("vf_p{}", self.n), proc_macro2::Span::call_site()); *self.n += 1;
            let q = (*r.pat).clone();
            // (one that binds nothing: the same without the reference)
            if matches!(&q, Pat::Path(_) | Pat::Lit(_)) { *p = q; return }
            // (what is bound is copied)
            self.lets.push(match &q { Pat::Ident(_) => parse_quote!(let #q = *#v;), _ => parse_quote!(let #q = #v;) });
            if !matches!(q, Pat::Ident(_)) { let mut names = Names(vec![]); names.visit_pat_mut(&mut q.clone()); for n in names.0 { self.lets.push(parse_quote!(let #n = *#n;)); } }
            *p = parse_quote!(#v);
            return
        } }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
struct Names(Vec<Ident>);
impl VisitMut for Names { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.0.push(p.ident.clone()); } }
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let mut r = RefPat { n: &mut self.n, lets: vec![] };
        r.visit_pat_mut(&mut a.pat);
        let l = r.lets;
        if !l.is_empty() {
            let b = &a.body; *a.body = parse_quote!({ #(#l)* #b });
            if let Some((_, g)) = &mut a.guard { let e = g.clone(); **g = parse_quote!({ #(#l)* #e }); }
        }
    }
}

/// (by how it is made)
fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => { let n = m.method.to_string(); ["iter", "into_iter", "range", "keys", "values", "split"].contains(&n.as_str()) || (["rev", "enumerate", "zip", "chain", "skip", "take", "peekable", "copied", "cloned", "map", "filter", "filter_map", "drain"].contains(&n.as_str()) && is_iter(&m.receiver)) }
        Expr::Range(_) => true,
        Expr::Paren(p) => is_iter(&p.expr),
        _ => false,
    }
}
/// `E.scan(seed, |state, item| body).collect()` into a map
fn scanned(e: &Expr, ty: &str) -> Option<Expr> {
    let Expr::MethodCall(c) = e else { return None };
    if c.method != "collect" || !ty.starts_with("BTreeMap") { return None }
    let Expr::MethodCall(m) = &*c.receiver else { return None };
    if m.method != "scan" || m.args.len() != 2 { return None }
    let Expr::Closure(f) = &m.args[1] else { return None };
    if f.inputs.len() != 2 || has_return(&f.body) { return None }
    let (sp, ip, b, r, seed) = (&f.inputs[0], &f.inputs[1], &f.body, &m.receiver, &m.args[0]);
    // (the state's parts are lent out one by one)
    let parts: Vec<Stmt> = match sp {
        Pat::Tuple(t) => t.elems.iter().enumerate().map(|(i, p)| { let i = syn::Index::from(i); parse_quote!(let #p = &mut vf_s.#i;) }).collect(),
        p => vec![parse_quote!(let #p = &mut vf_s;)],
    };
    Some(parse_quote!({ let mut vf_s = #seed; let mut vf_m = BTreeMap::new(); for #ip in #r { #(#parts)* let vf_v = #b; match vf_v { Some((vf_k, vf_x)) => { let _ = vf_m.insert(vf_k, vf_x); } None => { break; } } } vf_m }))
}
impl<'a> Tries<'a> {
    /// map, filter and filter_map of an iterator become the list of what they give (opt eager)
    fn list(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        if m.args.len() != 1 { return None }
        let name = m.method.to_string();
        if !["map", "filter", "filter_map", "find", "any", "all"].contains(&name.as_str()) { return None }
        let (p, b) = one_arg(&m.args[0])?;
        let r = &m.receiver;
        // (only iterators have any and all)
        if !is_iter(r) && name != "any" && name != "all" { return None }
        self.notes.push(format!("{name} rewritten to a loop that makes a list"));
        Some(match name.as_str() {
            "map" => parse_quote!({ let mut vf_m = Vec::new(); for #p in #r { let vf_v = #b; vf_m.push(vf_v); } vf_m }),
            "all" => parse_quote!({ let mut vf_a = true; for #p in #r { let vf_v = #b; if !vf_v { vf_a = false; break; } } vf_a }),
            "any" => parse_quote!({ let mut vf_a = false; for #p in #r { let vf_v = #b; if vf_v { vf_a = true; break; } } vf_a }),
            "find" => parse_quote!({ let mut vf_r = None; for vf_x in #r { let vf_v = { let #p = &vf_x; #b }; if vf_v { vf_r = Some(vf_x); break; } } vf_r }),
            "filter" => parse_quote!({ let mut vf_m = Vec::new(); for vf_x in #r { let vf_v = { let #p = &vf_x; #b }; if vf_v { vf_m.push(vf_x); } } vf_m }),
            _ => parse_quote!({ let mut vf_m = Vec::new(); for #p in #r { let vf_v = #b; if let Some(vf_v) = vf_v { vf_m.push(vf_v); } } vf_m }),
        })
    }
}
impl<'a> VisitMut for Tries<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if self.eager {
            let ty = match &l.pat { Pat::Type(t) => norm(&t.ty), _ => String::new() };
            if let Some(i) = &mut l.init { if let Some(n) = scanned(&i.expr, &ty) { self.notes.push("scan and collect rewritten to a loop".into()); *i.expr = n; } }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = &*e { if let Some(n) = self.each(&t.expr).or_else(|| self.collect(&t.expr)) { *e = n; } }
        if self.lazy { if let Expr::ForLoop(l) = e { while self.drawn(l) {} } }
        visit_mut::visit_expr_mut(self, e);
        if self.eager { if let Some(n) = self.list(e) { *e = n; } }
    }
}

/// Calls of functions of the same source that have no contract are replaced by the body.
struct Inline<'a> { fns: &'a BTreeMap<String, (Signature, Block, bool)>, known: &'a std::collections::BTreeSet<String>, f: &'a mut Fresh, depth: usize, notes: &'a mut Vec<String>, self_ty: String }
impl<'a> Inline<'a> {
    fn try_inline(&mut self, name: &str, recv: Option<&Expr>, args: Vec<&Expr>, allow_exit: bool) -> Option<TokenStream> {
        if self.depth > 3 || self.known.contains(name) { return None; }
        let (sig, body, outside) = self.fns.get(name)?.clone();
        if sig.generics.type_params().count() > 0 && !outside { return None; }
        if !exits_ok(&body, allow_exit) { return None; }
        let (mut pats, mut types, mut vals) = (vec![], vec![], vec![]);
        let mut it = args.into_iter();
        let mut body = body;
        for p in &sig.inputs {
            match p {
                FnArg::Receiver(r) => {
                    let s = self.f.id("self");
                    let rv: TokenStream = match recv { Some(e) => quote!(#e), None => { let e = it.next()?; quote!(#e) } };
                    let plain = matches!(recv, Some(Expr::Path(_)));
                    if r.reference.is_some() && r.mutability.is_some() { return None; }
                    if plain { RenameSelf(rv.clone()).visit_block_mut(&mut body); } else {
                        RenameSelf(quote!(#s)).visit_block_mut(&mut body);
                        pats.push(quote!(#s)); types.push(quote!(_)); vals.push(if r.reference.is_some() { quote!(&(#rv)) } else { rv });
                    }
                }
                FnArg::Typed(t) => {
                    let (p, ty, a) = (&t.pat, &t.ty, it.next()?);
                    // a closure goes where its parameter is called
                    if let Expr::Closure(c) = a {
                        let Pat::Ident(n) = &**p else { return None };
                        if early_exit(&c.body) { return None; }
                        let mut b = Beta { name: n.ident.clone(), closure: c.clone(), ok: true };
                        b.visit_block_mut(&mut body);
                        if !b.ok { return None; }
                        continue;
                    }
                    // so does a constructor that is passed as a function
                    if let (Expr::Path(c), Type::ImplTrait(_)) = (a, &**ty) {
                        if c.path.segments.last().is_some_and(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())) {
                            let Pat::Ident(n) = &**p else { return None };
                            struct Put(Ident, ExprPath);
                            impl VisitMut for Put { fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) { *e = Expr::Path(self.1.clone()) } else { visit_mut::visit_expr_mut(self, e) } } }
                            Put(n.ident.clone(), c.clone()).visit_block_mut(&mut body);
                            continue;
                        }
                    }
                    let ty = if outside { quote!(_) } else { quote!(#ty) };
                    pats.push(quote!(#p)); types.push(ty); vals.push(quote!(#a));
                }
            }
        }
        let lets = match pats.len() { 0 => quote!(), 1 => quote!(#(let #pats: #types = #vals;)*), _ => quote!(let (#(#pats),*): (#(#types),*) = (#(#vals),*);) };
        Strip1.visit_block_mut(&mut body);
        self.notes.push(format!("call of {name} (no contract of its own) inlined"));
        self.depth += 1;
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        let stmts = &body.stmts;
        Some(quote!({ #lets #(#stmts)* }))
    }
}
/// Calls of a closure parameter become the closure's body
struct Beta { name: Ident, closure: ExprClosure, ok: bool }
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) {
                if c.args.len() != self.closure.inputs.len() { self.ok = false; return; }
                let (args, pats, b) = (c.args.iter(), self.closure.inputs.iter(), &self.closure.body);
                *e = if c.args.len() == 1 { parse_quote!({ #(let #pats = #args;)* #b }) } else { parse_quote!({ let (#(#pats),*) = (#(#args),*); #b }) };
            }
        }
    }
}
/// `let f = |..| body;` : the closure goes where `f` is used (unless a later binding hides one of the names in it)
struct LetClosure<'a> { notes: &'a mut Vec<String> }
struct PutClosure { name: Ident, closure: ExprClosure, n: usize }
impl VisitMut for PutClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.closure.inputs.len() => {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                let (args, pats, b) = (c.args.iter(), self.closure.inputs.iter(), &self.closure.body);
                *e = match c.args.len() { 0 => parse_quote!({ #b }), 1 => parse_quote!({ #(let #pats = #args;)* #b }), _ => parse_quote!({ let (#(#pats),*) = (#(#args),*); #b }) };
                self.n += 1;
            }
            Expr::Path(p) if p.path.is_ident(&self.name) => { *e = Expr::Closure(self.closure.clone()); self.n += 1; }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn idents(ts: TokenStream, out: &mut std::collections::BTreeSet<String>) { for t in ts { match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), out), _ => {} } } }
impl<'a> VisitMut for LetClosure<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(n), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr { Expr::Closure(c) if !early_exit(&c.body) => Some((n.ident.clone(), c.clone())), _ => None },
                _ => None,
            };
            if let Some((name, closure)) = found {
                let mut used = Default::default();
                idents(closure.body.to_token_stream(), &mut used);
                let mut later = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                let mut names = Names(vec![]);
                names.visit_block_mut(&mut later.clone());
                if !names.0.iter().any(|n| used.contains(&n.to_string()) || *n == name) {
                    let mut p = PutClosure { name: name.clone(), closure, n: 0 };
                    p.visit_block_mut(&mut later);
                    let mut left = Default::default();
                    idents(later.to_token_stream(), &mut left);
                    if !left.contains(&name.to_string()) {
                        self.notes.push(format!("closure {name} put where it is used"));
                        b.stmts.truncate(i);
                        b.stmts.extend(later.stmts);
                        continue;
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
/// What may leave the helper early when its body is put in the caller's place: nothing, or (where the call is followed by `?`)
/// the errors.
fn exits_ok(b: &Block, errors: bool) -> bool {
    struct V(bool, bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Return(r) => if !(self.0 && matches!(r.expr.as_deref(), Some(Expr::Call(c)) if fn_key(&c.func).as_deref() == Some("Err"))) { self.1 = false },
                Expr::Try(_) => if !self.0 { self.1 = false },
                Expr::Break(_) | Expr::Continue(_) => self.1 = false,
                Expr::Closure(_) => return,
                Expr::Macro(m) => if early_exit(&m.mac.tokens) { self.1 = false },
                _ => {}
            }
            syn::visit::visit_expr(self, e)
        }
        fn visit_stmt_macro(&mut self, m: &'a StmtMacro) { if early_exit(&m.mac.tokens) || (!self.0 && m.mac.path.segments.last().is_some_and(|s| s.ident == "ensure")) { self.1 = false } }
    }
    let mut v = V(errors, true);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}
struct Strip1;
impl VisitMut for Strip1 { fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() } }
struct RenameSelf(TokenStream);
impl VisitMut for RenameSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = parse2(self.0.clone()).expect("self"); return; } }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn fn_key(e: &Expr) -> Option<String> {
    let Expr::Path(p) = e else { return None };
    let s: Vec<_> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
    Some(s.join("::"))
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // helper(..)? : early exits of the helper leave the caller as well
        if let Expr::Try(t) = e {
            let r = match &*t.expr {
                Expr::Call(c) => fn_key(&c.func).and_then(|k| { let k = self.key(&k); self.try_inline(&k, None, c.args.iter().collect(), true) }),
                Expr::MethodCall(m) if norm(&m.receiver) == "self" => { let k = format!("{}::{}", self.self_ty, m.method); self.try_inline(&k, Some(&m.receiver), m.args.iter().collect(), true) }
                _ => None,
            };
            if let Some(b) = r { *e = parse2(quote!((#b)?)).expect("inline"); return; }
        }
        visit_mut::visit_expr_mut(self, e);
        let r = match &*e {
            Expr::Call(c) => fn_key(&c.func).and_then(|k| { let k = self.key(&k); self.try_inline(&k, None, c.args.iter().collect(), false) }),
            Expr::MethodCall(m) => { let k = format!("{}::{}", self.self_ty, m.method); if norm(&m.receiver) == "self" || self.fns.get(&k).is_some_and(|f| f.2) { self.try_inline(&k, Some(&m.receiver), m.args.iter().collect(), false) } else { None } }
            _ => None,
        };
        if let Some(b) = r { *e = parse2(b).expect("inline"); }
    }
}
impl<'a> Inline<'a> { fn key(&self, k: &str) -> String { k.replace("Self::", &format!("{}::", self.self_ty)) } }

fn collect_fns(src: &Source) -> BTreeMap<String, (Signature, Block, bool)> {
    let mut out = BTreeMap::new();
    for i in &src.items {
        if is_test(item_attrs(i)) { continue; }
        match i {
            Item::Fn(f) => { out.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone(), false)); }
            Item::Impl(im) if im.trait_.is_none() => {
                let t = norm(&im.self_ty).split('<').next().unwrap().trim().to_string();
                for x in &im.items { if let ImplItem::Fn(f) = x { out.insert(format!("{t}::{}", f.sig.ident), (f.sig.clone(), f.block.clone(), false)); } }
            }
            _ => {}
        }
    }
    out
}

/// Closures taken out of a function: their bodies become functions of their own, what they capture becomes parameters.
struct Lift { n: usize, to: BTreeMap<usize, Expr> }
impl VisitMut for Lift {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e { let k = self.n; self.n += 1; if let Some(x) = self.to.remove(&k) { let mut c = Count(0); visit_mut::visit_expr_mut(&mut c, e); self.n += c.0; *e = x; return } }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// A closure that has a contract of its own is marked: `let NAME = |..| body`
struct Signed { name: String, i: usize, done: bool }
impl VisitMut for Signed {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let named = match &l.pat { Pat::Ident(p) => p.ident == self.name.as_str(), _ => false };
        if let (true, false, Some(LocalInit { expr, .. })) = (named, self.done, &mut l.init) { if let Expr::Closure(c) = &mut **expr {
            let (b, i) = (c.body.clone(), self.i);
            let stmts: Vec<Stmt> = match &*b { Expr::Block(x) if x.label.is_none() => x.block.stmts.clone(), x => vec![Stmt::Expr(x.clone(), None)] };
            *c.body = parse_quote!({ __vf_sign!(#i); #(#stmts)* });
            self.done = true;
        } }
        visit_mut::visit_local_mut(self, l);
    }
}
struct Count(usize);
impl VisitMut for Count { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Closure(_) = e { self.0 += 1; } visit_mut::visit_expr_mut(self, e); } }
struct Nth { n: usize, want: usize, got: Option<ExprClosure> }
impl VisitMut for Nth { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Closure(c) = e { if self.n == self.want { self.got = Some(c.clone()); } self.n += 1; } visit_mut::visit_expr_mut(self, e); } }
fn nth_closure(b: &Block, k: usize) -> Option<ExprClosure> { let mut v = Nth { n: 0, want: k, got: None }; v.visit_block_mut(&mut b.clone()); v.got }

// ---------------------------------------------------------------- emission
struct Emit { out: String, fns: Vec<serde_json::Value> }
impl Emit { fn line(&self) -> usize { self.out.matches('\n').count() + 1 } }

fn emit_fn(em: &mut Emit, cx: &mut Ctx, src_name: &str, sig0: &Signature, block: &Block, spec: &FnSpec, self_ty: &str, in_trait: bool) {
    let src = cx.sources[src_name].clone();
    let mut fns = collect_fns(&src);
    fns.extend(cx.inlines.clone());
    let mut notes = vec![];
    let mut fresh = Fresh(0);
    let mut sig = sig0.clone();
    let mut body = block.clone();
    let line = sig0.ident.span().start().line;
    for (i, (n, _)) in spec.signs.iter().enumerate() { let mut s = Signed { name: n.clone(), i, done: false }; s.visit_block_mut(&mut body); if !s.done { lost(format!("{}: closure {n}", spec.name)) } }
    // `use X as Y;` in the function
    let renames: Vec<(Vec<String>, TokenStream)> = body.stmts.iter().filter_map(|s| {
        let Stmt::Item(Item::Use(u)) = s else { return None };
        let (mut t, mut path) = (&u.tree, vec![]);
        loop { match t { UseTree::Path(p) => { path.push(p.ident.clone()); t = &p.tree } UseTree::Rename(r) => { let x = &r.ident; return Some((vec![r.rename.to_string()], quote!(#(#path::)* #x))) } _ => return None } }
    }).collect();
    let all: Vec<_> = renames.into_iter().chain(spec.mono.iter().cloned()).chain(cx.all_paths()).collect();
    let own: Vec<_> = spec.mono.iter().chain(&cx.mono).cloned().collect();
    std::mem::replace(&mut cx.mono, own.clone()).clone_into(&mut cx.mono_saved);
    cx.drop_generics(&mut sig.generics);
    cx.mono = std::mem::take(&mut cx.mono_saved);
    StripPass { paths: &all }.visit_signature_mut(&mut sig);
    let constness = if spec.opts.iter().any(|o| o == "const") { "const " } else { "" };
    sig.constness = None;
    // a return type that goes through an associated type, written out (the compiler of the unit checks it against the body)
    if let Some(ty) = &spec.retype { let ty: Type = parse_str(ty).expect("retype"); sig.output = parse_quote!(-> #ty); }
    // an argument of an `impl Trait` type, with the trait of the unit that stands for it
    for (n, ty) in &spec.argtypes {
        for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { if norm(&t.pat) == *n { let was = norm(&t.ty); let generic = spec.mono.iter().any(|m| m.0[0] == was); if !generic && !matches!(&*t.ty, Type::ImplTrait(_)) && was.replace(' ', "") != format!("&WithId<{}>", ty.trim_start_matches('&')) { lost(format!("argtype {n}: neither an impl Trait argument nor a WithId of {ty}")); } t.ty = Box::new(parse_str(ty).expect("argtype")); notes.push(format!("argument {n}: its type {was} written as {ty}")); } } }
    }
    // a further bound on a type parameter: the trait of the unit that says what the type stands for
    for (t, b) in &spec.bounds {
        let b: TypeParamBound = parse_str(b).expect("bound");
        let mut ok = false;
        for p in sig.generics.params.iter_mut() { if let GenericParam::Type(p) = p { if p.ident == t.as_str() { p.bounds.push(b.clone()); ok = true } } }
        if !ok { lost(format!("{}: no type parameter {t}", spec.name)) }
    }
    // `mut self` (by value) becomes a local
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            RenameSelf(quote!(vf_self)).visit_block_mut(&mut body);
            body.stmts.insert(0, parse_quote!(let mut vf_self = self;));
        }
    }
    let replace = |body: Block, a: &str, b: &str, notes: &mut Vec<String>| -> std::result::Result<Block, Block> {
        let (from, to): (TokenStream, TokenStream) = (a.parse().expect("replace"), b.parse().expect("replace"));
        let from: Vec<TokenTree> = from.into_iter().collect();
        let mut n = 0;
        let t = replace_tokens(body.to_token_stream(), &from, &to, &mut n);
        if n == 0 { return Err(body) }
        notes.push(format!("text `{a}` replaced by `{b}`"));
        Ok(parse2(t).unwrap_or_else(|e| lost(format!("substitution: {e}"))))
    };
    let mut later = vec![];
    for (a, b) in &spec.subst {
        body = match replace(body, a, b, &mut notes) { Ok(x) => x, Err(x) => { later.push((a, b)); x } };
    }
    if !spec.opts.iter().any(|o| o == "noinline") {
        let mut known = cx.known.clone();
        known.insert(if self_ty.is_empty() { spec.name.clone() } else { format!("{self_ty}::{}", spec.name) });
        let mut inl = Inline { fns: &fns, known: &known, f: &mut fresh, depth: 0, notes: &mut notes, self_ty: self_ty.to_string()  };
        // a call whose result is the result of the function: what leaves the helper with an error leaves the function with it
        if let Some(Stmt::Expr(Expr::Call(c), None)) = body.stmts.last() {
            let c = c.clone();
            let r = fn_key(&c.func).and_then(|k| { let k = inl.key(&k); inl.try_inline(&k, None, c.args.iter().collect(), true) });
            if let Some(b) = r { *body.stmts.last_mut().unwrap() = Stmt::Expr(parse2(b).expect("inline"), None); }
        }
        inl.visit_block_mut(&mut body);
    }
    // (texts that come from an inlined helper)
    for (a, b) in later {
        body = replace(body, a, b, &mut notes).unwrap_or_else(|_| lost(format!("{}: substitution anchor `{a}` not found", spec.name)));
    }
    StripPass { paths: &all }.visit_block_mut(&mut body);
    LetClosure { notes: &mut notes }.visit_block_mut(&mut body);
    {
        let mut tr = Tries { notes: &mut notes, eager: spec.opts.iter().any(|o| o == "eager"), lazy: spec.opts.iter().any(|o| o == "lazy") };
        // (at the end of the function: its result is the function's)
        if let Some(Stmt::Expr(e, None)) = body.stmts.last() { if let Some(n) = tr.collect(e) { *body.stmts.last_mut().unwrap() = Stmt::Expr(parse_quote!(Ok(#n)), None); } }
        if let Some(Stmt::Expr(e, None)) = body.stmts.last() { if let Some(n) = tr.each(e) { *body.stmts.last_mut().unwrap() = Stmt::Expr(n, Some(Default::default())); body.stmts.push(Stmt::Expr(parse_quote!(Ok(())), None)); } }
        tr.visit_block_mut(&mut body);
    }
    let rs = rets(&cx.sources, spec.opts.iter().any(|o| o == "result"));
    Desugar { f: &mut fresh, result_default: &rs, notes: &mut notes }.visit_block_mut(&mut body);
    MethodPass(&spec.methods).visit_block_mut(&mut body);
    if spec.opts.iter().any(|o| o == "refpats") { RefPats { n: 0 }.visit_block_mut(&mut body); }
    // a loop whose value is the function's: what leaves it with a value leaves the function with it
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = body.stmts.last_mut() { if l.label.is_none() { TailBreak.visit_block_mut(&mut l.body); } }
    Shapes { index: &spec.index }.visit_block_mut(&mut body);
    if spec.opts.iter().any(|o| o == "foriter") { ForIter { f: &mut fresh, notes: &mut notes }.visit_block_mut(&mut body); }
    if spec.opts.iter().any(|o| o == "forwhile") { let mut f = ForWhile { ok: true }; f.visit_block_mut(&mut body); if !f.ok { lost(format!("{}: continue in a loop", spec.name)) } notes.push("for over a range rewritten to a while loop".into()); }
    if spec.opts.iter().any(|o| o == "fornext") { ForNext { n: 0, all: false }.visit_block_mut(&mut body); notes.push("for over an iterator rewritten to a loop over its next()".into()); }
    let mut lp = Loops { n: 0, kinds: vec![], want: Default::default(), marks: vec![] };
    lp.visit_block_mut(&mut body);
    let _ = (&lp.want, &lp.marks);
    if let Some(w) = &spec.expect_loops {
        let have = lp.kinds.join(" ; ");
        let ws: Vec<String> = w.split(';').map(|x| norm_str(x)).collect();
        if ws.len() != lp.n || !ws.iter().zip(&lp.kinds).all(|(w, h)| norm_str(h).starts_with(w.as_str())) { lost(format!("{}: loops are `{have}`, the invariants are for `{w}`", spec.name)) }
    } else if !spec.loops.is_empty() && spec.loops.keys().max().unwrap() + 1 != lp.n { lost(format!("{}: {} loops, invariants for {}", spec.name, lp.n, spec.loops.len())) }
    // proof anchors
    let mut marks: Vec<(String, String)> = vec![];
    for (i, (anchor, code)) in spec.proofs.iter().enumerate() {
        let id = format!("__vf_proof!({i});");
        let st: Stmt = parse_str(&id).unwrap();
        let w: Vec<&str> = anchor.split_whitespace().collect();
        let ok = match w[..] {
            ["start"] => { let at = if matches!(body.stmts.first(), Some(Stmt::Local(l)) if norm(&l.pat) == "mut vf_self") { 1 } else { 0 }; body.stmts.insert(at, st); true }
            ["end"] => {
                if let Some(Stmt::Expr(e, None)) = body.stmts.last().cloned() {
                    body.stmts.pop();
                    if norm(&sig.output).is_empty() { body.stmts.push(Stmt::Expr(e, Some(Default::default()))); body.stmts.push(st); }
                    else { body.stmts.push(parse_quote!(let vf_ret = #e;)); body.stmts.push(st); body.stmts.push(parse_quote!(return vf_ret;)); }
                } else { body.stmts.push(st); }
                true
            }
            ["after" | "before", "let", v] => { let after = w[0] == "after"; let mut p = AfterLet { name: v.to_string(), st: Some(st), after }; p.visit_block_mut(&mut body); p.st.is_none() }
            ["loop", k, _] => { let k: usize = k.parse().expect("loop index"); k < lp.n }
            _ => panic!("bad proof anchor {anchor}"),
        };
        if !ok { lost(format!("{}: proof anchor `{anchor}`", spec.name)) }
        marks.push((anchor.clone(), code.join("\n")));
    }
    for n in &notes { cx.notes.push(format!("{}: {n}", spec.name)); }
    // print
    let file: File = parse_quote!(fn __vf_body() #body);
    let txt = prettyplease::unparse(&file);
    let start = txt.find('{').unwrap();
    let mut b = txt[start..].trim_end().to_string();
    for k in 0..lp.n {
        let ms = format!("__vf_loopstart!({k}usize);");
        let me = format!("__vf_loopend!({k}usize);");
        let code_at = |pos: &str| marks.iter().filter(|(a, _)| a == &format!("loop {k} {pos}")).map(|(_, c)| c.clone()).collect::<Vec<_>>().join("\n");
        let p = b.find(&ms).unwrap_or_else(|| panic!("marker {ms} in {b}"));
        let open = b[..p].rfind('{').unwrap();
        let inv = spec.loops.get(&k).map(|v| v.join("\n")).unwrap_or_default();
        let st = code_at("start");
        b = format!("{}\n{}\n{{{}{}{}", b[..open].trim_end(), inv, &b[open + 1..p], st, &b[p + ms.len()..]);
        let en = code_at("end");
        b = b.replace(&me, &en);
        let (bf, af) = (code_at("before"), code_at("after"));
        if !bf.is_empty() {
            // the line of the loop header
            let p = b.find(&inv).unwrap_or(0);
            let hl = header_start(&b, p);
            b.insert_str(hl, &format!("{bf}\n"));
        }
        let ma = format!("__vf_loopafter!({k}usize);");
        if !af.is_empty() && !b.contains(&ma) { lost(format!("{}: loop {k} is not a statement", spec.name)) }
        b = b.replace(&ma, &af);
    }
    for (i, (_, c)) in marks.iter().enumerate() { b = b.replace(&format!("__vf_proof!({i});"), c); }
    for (i, (n, h)) in spec.signs.iter().enumerate() {
        let m = format!("__vf_sign!({i}usize);");
        let p = b.find(&m).unwrap_or_else(|| lost(format!("{}: closure {n}", spec.name)));
        let open = b[..p].rfind('{').unwrap();
        let end = b[..open].rfind('|').unwrap();
        let start = b[..end].rfind('|').unwrap();
        b = format!("{}{h} {{{}{}", &b[..start], &b[open + 1..p], &b[p + m.len()..]);
    }
    if b.contains("__vf_") { lost(format!("{}: marker left", spec.name)) }
    // the reachability probe: with it, the function must fail to verify, or its precondition is contradictory
    if std::env::var("VF_PROBE").is_ok() && !spec.trusted { b = format!("{{ proof {{ assert(false); }}\n{}", &b[1..]); }
    let mut head = String::new();
    for a in &spec.attrs { head += &format!("{a}\n"); }
    if spec.trusted { head += "#[verifier::external_body]\n"; }
    if !in_trait { head += "pub "; }
    let name = spec.emit_as.clone().unwrap_or(sig.ident.to_string());
    let (g, w) = (&sig.generics, &sig.generics.where_clause);
    let inputs = sig.inputs.iter().map(|i| norm(i)).collect::<Vec<_>>().join(", ");
    let ret = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> ({}: {})", spec.ret.clone().unwrap_or("r".into()), norm(t)) };
    let l0 = em.line();
    em.out += &format!("{head}{constness}fn {name}{}({inputs}){ret}\n{}\n{}\n", norm(g), w.as_ref().map(|w| norm(w)).unwrap_or_default(), spec.contract.join("\n"));
    let lb = em.line();
    em.out += &b;
    em.out += "\n";
    let l1 = em.line();
    em.fns.push(serde_json::json!({"name": if self_ty.is_empty() { name.clone() } else { format!("{self_ty}::{name}") }, "file": src.path, "line": line, "out_start": l0, "body_start": lb, "out_end": l1, "trusted": spec.trusted, "loops": lp.n, "inlined": notes.iter().filter(|n| n.contains("inlined")).count(), "has_requires": spec.contract.iter().any(|c| c.trim_start().starts_with("requires"))}));
}
fn header_start(b: &str, inv_pos: usize) -> usize { let s = &b[..inv_pos]; let s = s.trim_end(); s.rfind('\n').map(|x| x + 1).unwrap_or(0) }
struct AfterLet { name: String, st: Option<Stmt>, after: bool }
impl VisitMut for AfterLet {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let pos = b.stmts.iter().position(|s| matches!(s, Stmt::Local(l) if pat_has(&l.pat, &self.name)));
        if let Some(p) = pos {
            if let Some(st) = self.st.take() { b.stmts.insert(if self.after { p + 1 } else { p }, st); }
            return;
        }
        visit_mut::visit_block_mut(self, b)
    }
}
impl AfterLet { }
fn pat_has(p: &Pat, n: &str) -> bool { norm(p).split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n) }

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs { if a.path().is_ident("derive") { let _ = a.parse_nested_meta(|m| { v.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) }); } }
    v
}

/// `//@ include FILE`: the lines of another template (the part between its `verus! {` and `} // verus!`, if it has them)
/// An inclusion that was already made is left out.
fn include(unit: &str, text: &str, seen: &mut std::collections::HashSet<String>) -> String {
    text.lines().map(|l| match l.trim_start().strip_prefix("//@ include ") {
        // (the includer gives what that file would)
        None if l.trim_start().starts_with("//@ without ") => { seen.insert(l.trim_start()["//@ without ".len()..].trim().to_string()); String::new() }
        Some(f) => {
            if !seen.insert(f.trim().to_string()) { return String::new() }
            let mut f = f.split_whitespace();
            let p = std::path::Path::new(unit).parent().unwrap().join(f.next().unwrap());
            let mut t = std::fs::read_to_string(&p).expect("included unit");
            // KEY=VALUE: the text @KEY@ of the template
            for kv in f { let (k, v) = kv.split_once('=').expect("KEY=VALUE"); t = t.replace(&format!("@{k}@"), v); }
            let dirs = |t: &str| t.lines().filter(|l| ["//@ source", "//@ path", "//@ mono", "//@ expand"].iter().any(|d| l.starts_with(d))).map(|l| format!("{l}\n")).collect::<String>();
            match (t.find("verus! {\n"), t.rfind("} // verus!")) { (Some(a), Some(b)) => dirs(&t[..a]) + &include(p.to_str().unwrap(), &t[a + 9..b], seen), _ => include(p.to_str().unwrap(), &t, seen) }
        }
        None => format!("{l}\n"),
    }).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (unit, repo, out, outj) = (&a[1], &a[2], &a[3], &a[4]);
    let text = std::fs::read_to_string(unit).expect("unit");
    let mut cx = Ctx { sources: Default::default(), paths: vec![], known: Default::default(), notes: vec![], traits_spec: false, mono: vec![], inlines: Default::default(), mono_saved: vec![] };
    let _ = cx.traits_spec;
    let mut em = Emit { out: String::new(), fns: vec![] };
    let text = include(unit, &text, &mut Default::default());
    let lines: Vec<&str> = text.lines().collect();
    // first pass: names under contract
    {
        let mut ty = String::new();
        for l in &lines {
            let Some(d) = l.trim_start().strip_prefix("//@ ") else { continue };
            let w: Vec<&str> = d.split_whitespace().collect();
            match w.first().copied() {
                Some("impl" | "inherent") => { let h = d[w[0].len()..].trim_start().split_once(' ').unwrap().1; let im: ItemImpl = parse_str(&format!("{h} {{}}")).expect("impl head"); ty = norm(&im.self_ty).split('<').next().unwrap().trim().to_string(); }
                Some("endimpl") => ty.clear(),
                Some("fn") | Some("trusted") => { let n = w.iter().skip(1).find(|x| **x != "fn" && (ty.is_empty() == false || x.chars().next().unwrap().is_lowercase() || x.contains("::"))).unwrap(); cx.known.insert(if ty.is_empty() { n.to_string() } else { format!("{ty}::{n}") }); }
                Some("known") => { for n in &w[1..] { cx.known.insert(n.to_string()); } }
                _ => {}
            }
        }
    }
    let mut cur_impl: Option<(String, ItemImpl, String)> = None; // source, impl, self type
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let Some(d) = l.trim_start().strip_prefix("//@ ") else { em.out += l; em.out.push('\n'); i += 1; continue };
        let d = d.trim();
        let w: Vec<&str> = d.split_whitespace().collect();
        match w[0] {
            "source" => {
                let p = format!("{repo}/{}", w[2]);
                let t = std::fs::read_to_string(&p).unwrap_or_else(|_| lost(format!("file {}", w[2])));
                let ts: TokenStream = t.parse().unwrap_or_else(|e| lost(format!("{}: {e}", w[2])));
                let f: File = parse2(keywords(ts)).unwrap_or_else(|e| lost(format!("{}: {e}", w[2])));
                let mut items = vec![];
                flatten(f.items, &mut items);
                cx.sources.insert(w[1].into(), Source { path: w[2].into(), items });
            }
            "expand" => { let args: Vec<String> = w[3..].iter().map(|s| s.to_string()).collect(); expand(cx.sources.get_mut(w[1]).expect("source"), w[2], &args); }
            "path" => { let (x, y) = d[5..].split_once("=>").expect("path a => b"); cx.paths.insert(0, (x.trim().split("::").map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(), y.trim().parse().expect("path"))); }
            "known" => {}
            "inline" => {
                let f = cx.sources[w[1]].items.iter().find_map(|x| match x { Item::Fn(f) if f.sig.ident == w[2] && !is_test(&f.attrs) => Some(f.clone()), _ => None }).unwrap_or_else(|| lost(format!("fn {}", w[2])));
                cx.inlines.insert(w.get(4).unwrap_or(&w[2]).to_string(), (f.sig.clone(), (*f.block).clone(), true));
            }
            "mono" => { cx.mono.retain(|m| m.0[0] != w[1]); cx.notes.push(format!("type parameter {} instantiated with {}", w[1], w[2])); cx.mono.push((vec![w[1].to_string()], w[2].parse().expect("mono"))); }
            "struct" | "enum" => {
                let s = &cx.sources[w[1]];
                let want: Vec<&str> = w.iter().skip_while(|x| **x != "derive").nth(1).map(|x| x.split(',').collect()).unwrap_or_default();
                let it = s.items.iter().find(|i| match i { Item::Struct(x) => x.ident == w[2], Item::Enum(x) => x.ident == w[2], _ => false }).unwrap_or_else(|| lost(format!("{} {}", w[0], w[2]))).clone();
                let have = derives(item_attrs(&it));
                for x in &want { if *x != "Structural" && !have.iter().any(|h| h == x) { lost(format!("{} no longer derives {x}", w[2])) } }
                let mut it = it;
                StripPass { paths: &cx.paths }.visit_item_mut(&mut it);
                match &mut it {
                    Item::Struct(x) => { x.attrs.clear(); x.vis = parse_quote!(pub); for f in x.fields.iter_mut() { f.vis = parse_quote!(pub); } }
                    Item::Enum(x) => { x.attrs.clear(); x.vis = parse_quote!(pub); }
                    _ => {}
                }
                if !want.is_empty() { em.out += &format!("#[derive({})]\n", want.join(", ")); }
                em.out += &prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![it] });
            }
            "type" => {
                let s = &cx.sources[w[1]];
                let it = s.items.iter().find_map(|i| match i { Item::Type(x) if x.ident == w[2] => Some(x), _ => None }).unwrap_or_else(|| lost(format!("type {}", w[2])));
                let (n, g, t) = (&it.ident, &it.generics, &it.ty);
                em.out += &format!("pub type {n}{} = {};\n", norm(g), norm(t));
            }
            "const" => {
                let s = &cx.sources[w[1]];
                let mut it = s.items.iter().find_map(|i| match i { Item::Const(x) if x.ident == w[2] => Some(x.clone()), _ => None }).unwrap_or_else(|| lost(format!("const {}", w[2])));
                it.attrs.clear();
                StripPass { paths: &cx.paths }.visit_item_const_mut(&mut it);
                let (n, t, e) = (&it.ident, &it.ty, &it.expr);
                if w.get(3) == Some(&"ensures") { em.out += &format!("pub exec const {n}: {} {} {{ {} }}\n", norm(t), w[3..].join(" "), norm(e)); } else {
                em.out += &format!("pub const {n}: {} = {};\n", norm(t).replace("& [", "&'static [").replace("& str", "&'static str"), norm(e)); }
            }
            "impl" | "inherent" => {
                let head = d[w[0].len()..].trim_start().split_once(' ').unwrap().1.trim();
                let ims = find_impl(&cx.sources[w[1]], head);
                if ims.is_empty() { lost(format!("no `{head}` in {}", cx.sources[w[1]].path)) }
                let mut im = ims[0].clone();
                for x in &ims[1..] { im.items.extend(x.items.iter().cloned()); }
                // the methods of a trait implementation as plain methods
                if w[0] == "inherent" { cx.notes.push(format!("`{head}` as plain methods")); im.trait_ = None; }
                let ty = norm(&im.self_ty).split('<').next().unwrap().trim().to_string();
                let mut h = im.clone();
                h.items.clear();
                let all = cx.all_paths();
                cx.drop_generics(&mut h.generics);
                StripPass { paths: &all }.visit_item_impl_mut(&mut h);
                em.out += &format!("{} {{\n", impl_head(&h));
                for it in &im.items { if w[0] == "inherent" { continue } if let ImplItem::Type(t) = it { let mut t = t.clone(); t.attrs.clear(); StripPass { paths: &all }.visit_impl_item_type_mut(&mut t); em.out += &format!("{}\n", norm(&t)); } }
                cur_impl = Some((w[1].into(), im, ty));
            }
            "endimpl" => { em.out += "}\n"; cur_impl = None; }
            "implconst" => {
                let (_, im, _) = cur_impl.as_ref().expect("inside impl");
                let mut c = im.items.iter().find_map(|x| match x { ImplItem::Const(c) if c.ident == w[1] => Some(c.clone()), _ => None }).unwrap_or_else(|| lost(format!("const {}", w[1])));
                StripPass { paths: &cx.all_paths() }.visit_impl_item_const_mut(&mut c);
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                // (with a contract: a constant whose value the verifier knows by it)
                if w.get(2) == Some(&"ensures") {
                    let whole = w[2..].join(" ");
                    let (contract, proof) = whole.split_once(" ;; ").unwrap_or((&whole, ""));
                    em.out += &format!("pub exec const {n}: {} {} {{ {proof} {} }}\n", norm(t), contract, norm(e));
                } else {
                em.out += &format!("pub const {n}: {} = {};\n", norm(t), norm(e)); }
            }
            "fn" | "trusted" => {
                let mut spec = FnSpec { trusted: w[0] == "trusted", ..Default::default() };
                let (srcn, name, rest) = match &cur_impl { Some((s, _, _)) => (s.clone(), w[1], &w[2..]), None => (w[1].to_string(), w[2], &w[3..]) };
                spec.name = name.to_string();
                if let Some(p) = rest.iter().position(|x| *x == "->") { spec.ret = Some(rest[p + 1].to_string()); }
                if let Some(p) = rest.iter().position(|x| *x == "as") { spec.emit_as = Some(rest[p + 1].to_string()); }
                #[derive(Clone)]
                enum T { C, L(usize), P(usize) }
                let mut t = T::C;
                let mut closure: Option<(usize, Signature)> = None;
                let mut lifts: BTreeMap<usize, Expr> = BTreeMap::new();
                while i + 1 < lines.len() {
                    let n = lines[i + 1].trim_start();
                    if let Some(c) = n.strip_prefix("//@|") {
                        match t.clone() { T::C => spec.contract.push(c.to_string()), T::L(k) => spec.loops.entry(k).or_default().push(c.to_string()), T::P(k) => spec.proofs[k].1.push(c.to_string()) }
                    } else if let Some(c) = n.strip_prefix("//@ . ") {
                        let c = c.trim();
                        let (k, r) = c.split_once(' ').unwrap_or((c, ""));
                        match k {
                            "loop" => { let k = r.trim().parse().expect("loop index"); spec.loops.entry(k).or_default(); t = T::L(k) }
                            "loops" => spec.expect_loops = Some(r.to_string()),
                            "proof" => { spec.proofs.push((r.trim().to_string(), vec![])); t = T::P(spec.proofs.len() - 1) }
                            "opt" => spec.opts.extend(r.split_whitespace().map(|s| s.to_string())),
                            "attr" => spec.attrs.push(r.to_string()),
                            "method" => { let (x, y) = r.split_once("=>").expect("method a => b"); spec.methods.push((x.trim().into(), y.trim().into())) }
                            "mono" => { let (x, y) = r.split_once(' ').expect("mono X Y"); cx.notes.push(format!("{name}: type parameter {x} instantiated with {y}")); spec.mono.push((vec![x.to_string()], y.parse().expect("mono"))) }
                            "closure" => { let (k, g) = r.split_once(' ').expect("closure K sig"); closure = Some((k.parse::<usize>().expect("closure index"), parse_str::<Signature>(g).expect("closure signature"))) }
                            "lift" => { let (k, g) = r.split_once(' ').expect("lift K expr"); lifts.insert(k.parse::<usize>().expect("closure index"), parse_str::<Expr>(g).expect("lift")); }
                            "index" => spec.index.extend(r.split_whitespace().map(|s| s.to_string())),
                            "argtype" => { let (x, y) = r.split_once(' ').expect("argtype NAME TYPE"); spec.argtypes.push((x.to_string(), y.to_string())) }
                            "bound" => { let (x, y) = r.split_once(' ').expect("bound T TRAIT"); spec.bounds.push((x.to_string(), y.to_string())) }
                            "sign" => { let (x, y) = r.split_once(' ').expect("sign NAME HEADER"); spec.signs.push((x.to_string(), y.to_string())) }
                            "retype" => spec.retype = Some(r.to_string()),
                            "replace" => { let (x, y) = r.split_once("=>>").expect("replace a =>> b"); spec.subst.push((x.trim().into(), y.trim().into())) }
                            _ => panic!("directive {c}"),
                        }
                    } else { break; }
                    i += 1;
                }
                let (sig, mut block, ty, in_trait) = match &cur_impl {
                    Some((_, im, ty)) => {
                        let f = im.items.iter().find_map(|x| match x { ImplItem::Fn(f) if f.sig.ident == name && !is_test(&f.attrs) => Some(f), _ => None }).unwrap_or_else(|| lost(format!("{ty}::{name}")));
                        (f.sig.clone(), f.block.clone(), ty.clone(), im.trait_.is_some())
                    }
                    None => {
                        let f = cx.sources[&srcn].items.iter().find_map(|x| match x { Item::Fn(f) if f.sig.ident == name && !is_test(&f.attrs) => Some(f), _ => None }).unwrap_or_else(|| lost(format!("fn {name}")));
                        (f.sig.clone(), (*f.block).clone(), String::new(), false)
                    }
                };
                if spec.trusted && spec.opts.iter().any(|o| o == "signature") { block = parse_str("{ unimplemented!() }").unwrap(); }
                let (mut sig, mut block, mut in_trait) = (sig, block, in_trait);
                if let Some((k, mut g)) = closure {
                    let c = nth_closure(&block, k).unwrap_or_else(|| lost(format!("{name}: closure {k}")));
                    let n = g.inputs.len();
                    if c.inputs.len() > n { lost(format!("{name}: closure {k} has {} parameters", c.inputs.len())) }
                    let mut st: Vec<Stmt> = vec![];
                    for (p, a) in c.inputs.iter().zip(g.inputs.iter().skip(n - c.inputs.len())) {
                        let FnArg::Typed(a) = a else { panic!("closure signature") };
                        let (p, a) = (match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }, &a.pat);
                        if norm(&p) != norm(a) { st.push(parse_quote!(let #p = #a;)); }
                    }
                    match &*c.body { Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => st.extend(b.block.stmts.iter().cloned()), e => st.push(Stmt::Expr(e.clone(), None)) }
                    block = Block { brace_token: Default::default(), stmts: st };
                    let sp = sig.ident.span();
                    g.ident = Ident::new(&g.ident.to_string(), sp);
                    spec.name = format!("{name} (closure {k})");
                    sig = g; in_trait = false;
                }
                if !lifts.is_empty() { let mut l = Lift { n: 0, to: lifts }; l.visit_block_mut(&mut block); if !l.to.is_empty() { lost(format!("{name}: closures")) } }
                emit_fn(&mut em, &mut cx, &srcn, &sig, &block, &spec, &ty, in_trait);
            }
            x => panic!("unknown directive {x}"),
        }
        i += 1;
    }
    std::fs::write(out, &em.out).expect("write");
    cx.notes.sort();
    cx.notes.dedup();
    std::fs::write(outj, serde_json::json!({"fns": em.fns, "notes": cx.notes}).to_string()).expect("write");
    let _ = Delimiter::Brace;
}
