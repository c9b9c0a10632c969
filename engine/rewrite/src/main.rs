// Source-to-source translator: copies a Rust source tree and prepares it for the verification run.
//
//   rewrite MODE SRC OUT [--keep mod1,mod2] [--harness FILE]...
//
// MODE = sym    every `f64` becomes the symbolic real `::vt::Sym`; float literals, `as` casts,
//               std::collections and constant initialisers are redirected accordingly.
// MODE = native only visibility and std::collections are changed: floats stay floats, so that a
//               model found by the solver can be replayed against the real arithmetic.
// In both modes every item is made `pub` (harnesses live in a sibling module of the crate) and
// #[cfg(test)] items are dropped.

use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::path::{Path, PathBuf};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Rw {
    sym: bool,
    in_const: usize,     // inside a context that must stay a constant expression
    float_const: usize,  // inside the initialiser of a const/static whose type mentions f64
    file: Option<String>, // repository file being translated (None for harness files)
    owner: Vec<String>,   // enclosing impl/trait/module
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            return s == "cfg(test)" || s.starts_with("cfg(all(test");
        }
        false
    })
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Union(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn pub_vis() -> Visibility {
    parse_quote!(pub)
}

const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64", "f32",
];

fn castable(ty: &Type) -> bool {
    match ty {
        Type::Path(p) if p.qself.is_none() => match p.path.get_ident() {
            Some(i) => PRIMS.contains(&i.to_string().as_str()),
            None => false,
        },
        Type::Infer(_) => true,
        _ => false,
    }
}

fn is_prim_float(ty: &Type) -> bool {
    match ty {
        Type::Path(p) => p.path.is_ident("f64") || p.path.is_ident("f32"),
        _ => false,
    }
}

fn sym_lit(l: &TokenStream) -> Expr {
    parse_quote!(::vt::Sym::L(#l))
}

fn float_digits(e: &Expr) -> Option<TokenStream> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
            let s = f.base10_digits();
            let s = if s.contains('.') || s.contains('e') || s.contains('E') { s.to_string() } else { format!("{}.0", s) };
            Some(s.parse().unwrap())
        }
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix() == "f64" || i.suffix() == "f32" => {
            format!("{}.0", i.base10_digits()).parse().ok()
        }
        _ => None,
    }
}

// arithmetic with a float literal in it, however deep
fn float_arith(e: &Expr) -> bool {
    match e {
        Expr::Binary(b) => float_arith(&b.left) || float_arith(&b.right),
        Expr::Unary(u) => float_arith(&u.expr),
        Expr::Paren(p) => float_arith(&p.expr),
        Expr::Group(p) => float_arith(&p.expr),
        e => float_digits(e).is_some(),
    }
}

// numbers a float pattern stands for (`0.0`, `-1.0`, `0.0 | 1.0`)
fn float_pats(p: &Pat) -> Option<Vec<Expr>> {
    match p {
        Pat::Lit(l) => {
            let e = Expr::Lit(l.clone());
            float_digits(&e).map(|d| vec![sym_lit(&d)])
        }
        Pat::Paren(p) => float_pats(&p.pat),
        Pat::Or(o) => {
            let mut r = vec![];
            for c in o.cases.iter() {
                r.extend(float_pats(c)?);
            }
            Some(r)
        }
        _ => None,
    }
}

struct VecRepeat(Expr, Expr);
impl Parse for VecRepeat {
    fn parse(i: ParseStream) -> Result<Self> {
        let a: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        let b: Expr = i.parse()?;
        Ok(VecRepeat(a, b))
    }
}
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl Parse for MatchesArgs {
    fn parse(i: ParseStream) -> Result<Self> {
        let a: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let b = Pat::parse_multi_with_leading_vert(i)?;
        let c = if i.parse::<Option<Token![if]>>()?.is_some() { Some(i.parse()?) } else { None };
        i.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs(a, b, c))
    }
}

// fallback for macros whose arguments are not expressions: float literals only
fn tokens_floats(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), tokens_floats(g.stream()));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            TokenTree::Literal(l) => {
                let e: Expr = parse2(TokenTree::Literal(l.clone()).into_token_stream()).unwrap();
                match float_digits(&e) {
                    Some(d) => {
                        let s = sym_lit(&d);
                        out.extend([TokenTree::Group(Group::new(Delimiter::None, s.to_token_stream()))]);
                    }
                    None => out.extend([TokenTree::Literal(l)]),
                }
            }
            o => out.extend([o]),
        }
    }
    out
}

type Leaf = (Vec<Ident>, Option<Ident>, bool);

fn flatten(tree: &UseTree, pre: &mut Vec<Ident>, out: &mut Vec<Leaf>) {
    match tree {
        UseTree::Path(p) => {
            pre.push(p.ident.clone());
            flatten(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident == "self" {
                out.push((v, None, false))
            } else {
                v.push(n.ident.clone());
                out.push((v, None, false))
            }
        }
        UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.clone());
            }
            out.push((v, Some(r.rename.clone()), false))
        }
        UseTree::Glob(_) => out.push((pre.clone(), None, true)),
        UseTree::Group(g) => {
            for t in g.items.iter() {
                flatten(t, pre, out)
            }
        }
    }
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

impl Rw {
    // new path segments for a std path, None = unchanged
    fn std_map(&self, segs: &[String]) -> Option<Vec<String>> {
        if segs.len() < 2 || !(segs[0] == "std" || segs[0] == "core" || segs[0] == "alloc") {
            return None;
        }
        let tail = segs[2..].to_vec();
        let mut r = vec!["vt".to_string()];
        match segs[1].as_str() {
            "collections" => {
                r.push("collections".into());
                r.extend(tail);
                Some(r)
            }
            "f64" | "f32" if self.sym => {
                if tail.first().map(|s| s == "consts").unwrap_or(false) {
                    r.extend(tail);
                } else {
                    r.push("Sym".into());
                    r.extend(tail);
                }
                Some(r)
            }
            _ => None,
        }
    }

    fn expand_use(&self, u: &ItemUse) -> Vec<ItemUse> {
        if u.leading_colon.is_some() && false {
            return vec![u.clone()];
        }
        let mut leaves = vec![];
        flatten(&u.tree, &mut vec![], &mut leaves);
        let touched = leaves.iter().any(|(p, _, _)| {
            let s: Vec<String> = p.iter().map(|x| x.to_string()).collect();
            self.std_map(&s).is_some()
        });
        if !touched {
            return vec![u.clone()];
        }
        let mut out = vec![];
        for (p, ren, glob) in leaves {
            let s: Vec<String> = p.iter().map(|x| x.to_string()).collect();
            let (segs, lead) = match self.std_map(&s) {
                Some(m) => {
                    if m == ["vt", "Sym"] && ren.is_none() {
                        continue; // `use std::f64;`
                    }
                    (m, true)
                }
                None => (s, u.leading_colon.is_some()),
            };
            let ids: Vec<Ident> = segs.iter().map(|x| id(x)).collect();
            let mut path = TokenStream::new();
            for (i, x) in ids.iter().enumerate() {
                if i > 0 {
                    path.extend(quote!(::));
                }
                path.extend(quote!(#x));
            }
            if glob {
                path.extend(quote!(::*));
            }
            if let Some(r) = ren {
                path.extend(quote!(as #r));
            }
            let lead = if lead { quote!(::) } else { quote!() };
            let vis = &u.vis;
            let attrs = &u.attrs;
            out.push(parse2(quote!(#(#attrs)* #vis use #lead #path;)).unwrap());
        }
        out
    }

    fn visit_items(&mut self, items: &mut Vec<Item>) {
        let old = std::mem::take(items);
        for it in old {
            if is_cfg_test(item_attrs(&it)) {
                continue;
            }
            if let Item::Use(u) = &it {
                for x in self.expand_use(u) {
                    items.push(Item::Use(x));
                }
                continue;
            }
            let fieldless = match &it {
                Item::Enum(e) if self.sym && e.generics.params.is_empty() && !e.variants.is_empty() && e.variants.iter().all(|v| matches!(v.fields, Fields::Unit)) => Some(e.ident.clone()),
                _ => None,
            };
            items.push(it);
            if let Some(n) = fieldless {
                items.push(parse_quote! {
                    impl<T> ::vt::Cast<T> for #n where isize: ::vt::Cast<T> {
                        fn cast(self) -> T { ::vt::cast::<isize, T>(self as isize) }
                    }
                });
            }
        }
    }

    fn alias(&self) -> Item {
        parse_quote!(#[allow(unused_imports)] use ::vt::Sym as f64;)
    }

    fn const_init(&mut self, ty: &Type, e: &mut Expr) {
        let floaty = ty.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "f64");
        self.in_const += 1;
        if floaty {
            self.float_const += 1;
        }
        self.visit_expr_mut(e);
        if floaty {
            self.float_const -= 1;
        }
        self.in_const -= 1;
    }
}

impl Rw {
    // record that the function was executed symbolically
    fn enter(&self, sig: &Signature, b: &mut Block) {
        if !self.sym || sig.constness.is_some() {
            return;
        }
        if let Some(f) = &self.file {
            let mut n = f.trim_end_matches(".rs").to_string();
            for o in self.owner.iter() {
                n += "::";
                n += o;
            }
            n += "::";
            n += &sig.ident.to_string();
            b.stmts.insert(0, parse_quote!(::vt::enter!(#n);));
        }
    }
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        o => o.to_token_stream().to_string(),
    }
}

impl VisitMut for Rw {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if self.sym {
            if let Some(fs) = float_pats(&a.pat) {
                a.pat = parse_quote!(__vt_pat);
                visit_mut::visit_arm_mut(self, a);
                let g: Expr = parse_quote!((#(__vt_pat == #fs)||*));
                a.guard = Some(match a.guard.take() {
                    Some((i, old)) => (i, Box::new(parse_quote!(#g && (#old)))),
                    None => (Default::default(), Box::new(g)),
                });
                return;
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        // arithmetic on symbolic numbers is no constant expression
        if self.sym && s.constness.is_some() && s.inputs.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "f64") {
            s.constness = None;
        }
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.enter(&f.sig, &mut f.block);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        visit_mut::visit_trait_item_fn_mut(self, f);
        if let Some(b) = &mut f.default {
            self.enter(&f.sig, b);
        }
    }
    fn visit_file_mut(&mut self, f: &mut File) {
        self.visit_items(&mut f.items);
        visit_mut::visit_file_mut(self, f);
        if self.sym {
            f.items.insert(0, self.alias());
        }
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        m.vis = pub_vis();
        if let Some((_, items)) = &mut m.content {
            self.visit_items(items);
        }
        visit_mut::visit_item_mod_mut(self, m);
        if let Some((_, items)) = &mut m.content {
            if self.sym {
                items.insert(0, self.alias());
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match s {
                Stmt::Item(Item::Use(u)) => {
                    for x in self.expand_use(&u) {
                        b.stmts.push(Stmt::Item(Item::Use(x)))
                    }
                }
                Stmt::Item(i) if is_cfg_test(item_attrs(&i)) => {}
                s => b.stmts.push(s),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        i.vis = pub_vis();
        visit_mut::visit_item_fn_mut(self, i);
        self.enter(&i.sig, &mut i.block);
    }
    fn visit_item_struct_mut(&mut self, i: &mut ItemStruct) {
        i.vis = pub_vis();
        for f in i.fields.iter_mut() {
            f.vis = pub_vis();
        }
        visit_mut::visit_item_struct_mut(self, i);
    }
    fn visit_item_enum_mut(&mut self, i: &mut ItemEnum) {
        i.vis = pub_vis();
        visit_mut::visit_item_enum_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        i.vis = pub_vis();
        self.owner.push(i.ident.to_string());
        visit_mut::visit_item_trait_mut(self, i);
        self.owner.pop();
    }
    fn visit_item_type_mut(&mut self, i: &mut ItemType) {
        i.vis = pub_vis();
        visit_mut::visit_item_type_mut(self, i);
    }
    fn visit_item_const_mut(&mut self, i: &mut ItemConst) {
        i.vis = pub_vis();
        self.visit_type_mut(&mut i.ty);
        let ty = (*i.ty).clone();
        self.const_init(&ty, &mut i.expr);
    }
    fn visit_item_static_mut(&mut self, i: &mut ItemStatic) {
        i.vis = pub_vis();
        self.visit_type_mut(&mut i.ty);
        let ty = (*i.ty).clone();
        self.const_init(&ty, &mut i.expr);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let inherent = i.trait_.is_none();
        for it in i.items.iter_mut() {
            if inherent {
                match it {
                    ImplItem::Fn(f) => f.vis = pub_vis(),
                    ImplItem::Const(f) => f.vis = pub_vis(),
                    _ => {}
                }
            }
        }
        i.items.retain(|it| match it {
            ImplItem::Fn(f) => !is_cfg_test(&f.attrs),
            _ => true,
        });
        let mut n = type_name(&i.self_ty);
        if let Some((_, t, _)) = &i.trait_ {
            n = format!("<{} as {}>", n, t.segments.last().map(|s| s.ident.to_string()).unwrap_or_default());
        }
        self.owner.push(n);
        visit_mut::visit_item_impl_mut(self, i);
        self.owner.pop();
    }
    fn visit_impl_item_const_mut(&mut self, i: &mut ImplItemConst) {
        self.visit_type_mut(&mut i.ty);
        let ty = i.ty.clone();
        self.const_init(&ty, &mut i.expr);
    }
    fn visit_type_array_mut(&mut self, t: &mut TypeArray) {
        self.visit_type_mut(&mut t.elem);
        self.in_const += 1;
        self.visit_expr_mut(&mut t.len);
        self.in_const -= 1;
    }
    fn visit_expr_repeat_mut(&mut self, t: &mut ExprRepeat) {
        self.visit_expr_mut(&mut t.expr);
        self.in_const += 1;
        self.visit_expr_mut(&mut t.len);
        self.in_const -= 1;
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        if let Some(m) = self.std_map(&s) {
            // arguments of the trailing segments are kept
            let keep: Vec<PathArguments> = p.segments.iter().map(|x| x.arguments.clone()).collect();
            let off = keep.len() as isize - m.len() as isize;
            let mut segs: Punctuated<PathSegment, Token![::]> = Punctuated::new();
            for (i, x) in m.iter().enumerate() {
                let j = i as isize + off;
                let args = if j >= 0 && (j as usize) < keep.len() { keep[j as usize].clone() } else { PathArguments::None };
                segs.push(PathSegment { ident: id(x), arguments: args });
            }
            p.leading_colon = Some(Default::default());
            p.segments = segs;
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.sym {
            if let Some(d) = float_digits(e) {
                *e = sym_lit(&d);
                return;
            }
            if let Expr::Unary(u) = e {
                if let (UnOp::Neg(_), Some(d)) = (&u.op, float_digits(&u.expr)) {
                    let d: TokenStream = quote!(-#d);
                    *e = sym_lit(&d);
                    return;
                }
                if (self.float_const > 0 || (self.in_const > 0 && float_arith(&u.expr))) && matches!(u.op, UnOp::Neg(_)) {
                    let mut x = (*u.expr).clone();
                    self.visit_expr_mut(&mut x);
                    *e = parse_quote!(::vt::c_neg(#x));
                    return;
                }
            }
            if self.float_const > 0 || (self.in_const > 0 && float_arith(e)) {
                if let Expr::Binary(b) = e {
                    let f = match b.op {
                        BinOp::Add(_) => Some("c_add"),
                        BinOp::Sub(_) => Some("c_sub"),
                        BinOp::Mul(_) => Some("c_mul"),
                        BinOp::Div(_) => Some("c_div"),
                        _ => None,
                    };
                    if let Some(f) = f {
                        let f = id(f);
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(::vt::#f(#l, #r));
                        return;
                    }
                }
                if let Expr::Cast(c) = e {
                    if is_prim_float(&c.ty) {
                        let x = &c.expr;
                        *e = parse_quote!(::vt::c_from_i((#x) as i128));
                        return;
                    }
                }
            }
            // compound assignment on primitives evaluates the right-hand side first
            if let Expr::Binary(b) = e {
                let compound = matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_));
                if compound && !matches!(&*b.right, Expr::Lit(_) | Expr::Path(_)) {
                    let (mut l, mut r, op) = ((*b.left).clone(), (*b.right).clone(), b.op.clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(match #r { __vt_rhs => { #l #op __vt_rhs } });
                    return;
                }
            }
            if let Expr::Cast(c) = e {
                if castable(&c.ty) && self.in_const == 0 {
                    let mut x = (*c.expr).clone();
                    self.visit_expr_mut(&mut x);
                    let ty = &c.ty;
                    *e = parse_quote!(::vt::cast::<_, #ty>(#x));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let ts = m.tokens.clone();
        let comma = Punctuated::<Expr, Token![,]>::parse_terminated;
        if let Ok(mut args) = comma.parse2(ts.clone()) {
            for a in args.iter_mut() {
                // `name = expr` format arguments
                if let Expr::Assign(asg) = a {
                    self.visit_expr_mut(&mut asg.right);
                } else {
                    self.visit_expr_mut(a);
                }
            }
            m.tokens = args.to_token_stream();
            return;
        }
        if let Ok(VecRepeat(mut a, mut b)) = parse2::<VecRepeat>(ts.clone()) {
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            m.tokens = quote!(#a; #b);
            return;
        }
        if m.path.is_ident("matches") {
            if let Ok(MatchesArgs(mut a, mut b, c)) = parse2::<MatchesArgs>(ts.clone()) {
                self.visit_expr_mut(&mut a);
                self.visit_pat_mut(&mut b);
                m.tokens = match c {
                    Some(mut c) => {
                        self.visit_expr_mut(&mut c);
                        quote!(#a, #b if #c)
                    }
                    None => quote!(#a, #b),
                };
                return;
            }
        }
        if self.sym {
            m.tokens = tokens_floats(ts);
        }
    }
    fn visit_item_macro_mut(&mut self, m: &mut ItemMacro) {
        if self.sym {
            m.mac.tokens = tokens_floats(m.mac.tokens.clone());
        }
    }
}

fn drop_spacemath_impls(f: &mut File) {
    f.items.retain(|i| match i {
        Item::Impl(x) => {
            let mut h = x.clone();
            h.items.clear();
            !h.to_token_stream().to_string().replace(' ', "").contains("spacemath::")
        }
        _ => true,
    });
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out)
        } else {
            out.push(p)
        }
    }
}

fn write_if_changed(p: &Path, s: &str) {
    if std::fs::read_to_string(p).map(|o| o == s).unwrap_or(false) {
        return;
    }
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, s).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let sym = a[1] == "sym";
    let (src, out) = (PathBuf::from(&a[2]), PathBuf::from(&a[3]));
    let mut keep: Vec<String> = vec![];
    let mut harness: Vec<PathBuf> = vec![];
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--keep" => keep = a[i + 1].split(',').map(|s| s.to_string()).collect(),
            "--harness" => harness.push(a[i + 1].clone().into()),
            o => panic!("unknown argument {}", o),
        }
        i += 2;
    }
    let left_out: Vec<&str> = ["file", "mesher"].into_iter().filter(|m| !keep.iter().any(|k| k == m)).collect();
    let with_spacemath = keep.iter().any(|k| k == "spacemath" || k == "mesher");
    let mut files = vec![];
    walk(&src, &mut files);
    let mut wanted = vec![];
    for p in files {
        let rel = p.strip_prefix(&src).unwrap().to_path_buf();
        let rs = rel.to_str().unwrap().to_string();
        if rs == "main.rs" || !rs.ends_with(".rs") || left_out.iter().any(|m| rs.starts_with(&format!("{}/", m)) || rs == format!("{}.rs", m)) {
            continue;
        }
        let text = std::fs::read_to_string(&p).unwrap();
        let mut f = match parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("rewrite: {} does not parse: {}", rs, e);
                std::process::exit(3)
            }
        };
        if rs == "lib.rs" {
            f.items.retain(|i| match i {
                Item::Mod(m) => !(m.content.is_none() && left_out.iter().any(|l| m.ident == l)),
                _ => true,
            });
            for h in harness.iter() {
                let n = id(h.file_stem().unwrap().to_str().unwrap());
                f.items.push(parse_quote!(pub mod #n;));
            }
        }
        if !with_spacemath {
            drop_spacemath_impls(&mut f);
        }
        emit(sym, f, Some(rs.clone()), &out.join(&rel));
        wanted.push(out.join(&rel));
    }
    for h in harness.iter() {
        let f = parse_file(&std::fs::read_to_string(h).unwrap()).unwrap_or_else(|e| panic!("{:?}: {} at {:?}", h, e, e.span().start()));
        let o = out.join(h.file_name().unwrap());
        emit(sym, f, None, &o);
        wanted.push(o);
    }
    let mut have = vec![];
    if out.exists() {
        walk(&out, &mut have);
    }
    for p in have {
        if !wanted.contains(&p) && !p.ends_with("vt_main.rs") {
            std::fs::remove_file(p).unwrap();
        }
    }
}

fn emit(sym: bool, mut f: File, file: Option<String>, to: &Path) {
    // inner attributes that only steer lints can turn into errors after rewriting
    f.attrs.retain(|a| !(a.path().is_ident("deny") || a.path().is_ident("forbid")));
    let mut rw = Rw { sym, in_const: 0, float_const: 0, file, owner: vec![] };
    rw.visit_file_mut(&mut f);
    let _ = (Punct::new(',', Spacing::Alone), ());
    write_if_changed(to, &f.to_token_stream().to_string());
}
