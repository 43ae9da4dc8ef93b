//! Stand-ins for the Scrypto procedural macros: they expand the same source into native Rust running on the model ledger.
use proc_macro::TokenStream;
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream as TS, TokenTree};
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream, Parser};
use syn::*;

fn is_global(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Global" {
            if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(x)) = a.args.first() { return Some(x.clone()); } }
        }
    }
    None
}
fn boxed(t: &Type, e: TS) -> TS { match is_global(t) { Some(x) => quote!(::scrypto::ledger::Wrap::garg::<#x>(#e)), None => quote!(::scrypto::ledger::Wrap::arg::<#t>(#e)) } }
fn unboxed(t: &Type, e: TS) -> TS { match is_global(t) { Some(x) => quote!(::scrypto::ledger::Wrap::gunarg::<#x>(#e)), None => quote!(::scrypto::ledger::Wrap::unarg::<#t>(#e)) } }
fn ret_ty(r: &ReturnType) -> Type { match r { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() } }

struct Sig { name: Ident, recv: bool, args: Vec<(Ident, Type)>, ret: Type }
fn sig_of(s: &Signature, me: Option<&Ident>) -> Sig {
    let mut args = vec![];
    let mut recv = false;
    for (i, a) in s.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(_) => recv = true,
            FnArg::Typed(p) => {
                let n = if let Pat::Ident(i) = &*p.pat { i.ident.clone() } else { format_ident!("arg{}", i) };
                args.push((n, fix_self(&p.ty, me)));
            }
        }
    }
    Sig { name: s.ident.clone(), recv, args, ret: fix_self(&ret_ty(&s.output), me) }
}
fn fix_self(t: &Type, me: Option<&Ident>) -> Type {
    let Some(me) = me else { return t.clone() };
    fn go(ts: TS, me: &Ident) -> TS {
        ts.into_iter().map(|t| match t {
            TokenTree::Ident(i) if i == "Self" => TokenTree::Ident(me.clone()),
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), go(g.stream(), me)); n.set_span(g.span()); TokenTree::Group(n) }
            x => x,
        }).collect()
    }
    parse2(go(quote!(#t), me)).unwrap_or_else(|_| t.clone())
}
fn stub_method(s: &Sig) -> TS {
    let (n, ret) = (&s.name, &s.ret);
    let (an, at): (Vec<_>, Vec<_>) = s.args.iter().map(|a| (a.0.clone(), a.1.clone())).unzip();
    let bx: Vec<TS> = s.args.iter().map(|(n, t)| boxed(t, quote!(#n))).collect();
    let un = unboxed(ret, quote!(::scrypto::ledger::call_method(self.0, stringify!(#n), vec![#(#bx),*])));
    quote! { pub fn #n(&self, #(#an: #at),*) -> #ret { #un } }
}
fn stub_items(name: &Ident, sigs: &[Sig]) -> TS {
    let stub = format_ident!("{}Stub", name);
    let ms: Vec<TS> = sigs.iter().filter(|s| s.recv).map(stub_method).collect();
    let tr = format_ident!("{}Functions", name);
    let (mut decl, mut imp) = (vec![], vec![]);
    for s in sigs.iter().filter(|s| !s.recv) {
        let (n, ret) = (&s.name, &s.ret);
        let (an, at): (Vec<_>, Vec<_>) = s.args.iter().map(|a| (a.0.clone(), a.1.clone())).unzip();
        let bx: Vec<TS> = s.args.iter().map(|(n, t)| boxed(t, quote!(#n))).collect();
        let un = unboxed(ret, quote!(::scrypto::ledger::call_function(stringify!(#name), stringify!(#n), vec![#(#bx),*])));
        decl.push(quote!(fn #n(#(#an: #at),*) -> #ret;));
        imp.push(quote!(fn #n(#(#an: #at),*) -> #ret { #un }));
    }
    quote! {
        #[derive(Clone, Copy, Debug)]
        pub struct #stub(pub ::radix_common::prelude::ComponentAddress);
        impl ::scrypto::ledger::Stub for #stub {
            fn at(a: ::radix_common::prelude::ComponentAddress) -> Self { #stub(a) }
            fn addr(&self) -> ::radix_common::prelude::ComponentAddress { self.0 }
        }
        impl ::scrypto::ledger::HasStub for #name { type Stub = #stub; const NAME: &'static str = stringify!(#name); }
        #[allow(unused_variables, dead_code, clippy::all)]
        impl #stub { #(#ms)* }
        #[allow(dead_code)]
        pub trait #tr { #(#decl)* }
        impl #tr for ::scrypto::ledger::Blueprint<#name> { #(#imp)* }
    }
}

struct Ext { name: Ident, fns: Vec<TraitItemFn> }
impl Parse for Ext {
    fn parse(i: ParseStream) -> Result<Self> {
        let _pkg: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let name: Ident = i.parse()?;
        // optional alias list is not used by this code base
        let c;
        braced!(c in i);
        let mut fns = vec![];
        while !c.is_empty() { fns.push(c.parse::<TraitItemFn>()?); }
        let _ = i.parse::<Option<Token![,]>>();
        Ok(Ext { name, fns })
    }
}
/// name => value ; pairs
fn arms(ts: TS) -> Vec<(Ident, TS)> {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        let TokenTree::Ident(n) = t else { continue };
        // skip =>
        it.next();
        it.next();
        let mut v = TS::new();
        while let Some(t) = it.peek() {
            if let TokenTree::Punct(p) = t { if p.as_char() == ';' { it.next(); break; } }
            v.extend([it.next().unwrap()]);
        }
        out.push((n, v));
    }
    out
}
fn idents_in_bracket(ts: TS) -> Vec<String> {
    for t in ts {
        if let TokenTree::Group(g) = t {
            if g.delimiter() == Delimiter::Bracket { return g.stream().into_iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).collect(); }
        }
    }
    vec![]
}

#[proc_macro_attribute]
pub fn blueprint(_a: TokenStream, item: TokenStream) -> TokenStream {
    let m: ItemMod = match parse(item) { Ok(m) => m, Err(e) => return e.to_compile_error().into() };
    let name = m.ident.clone();
    let (_, items) = m.content.expect("inline module");
    let mut out = vec![];
    let mut roles: Vec<(String, Vec<String>)> = vec![];
    let mut methods: Option<Vec<(String, Option<Vec<String>>)>> = None;
    let mut fauth: Vec<(Ident, TS)> = vec![];
    let mut bp: Option<Ident> = None;
    let mut sigs: Vec<Sig> = vec![];
    for it in items {
        match it {
            Item::Macro(mc) if mc.mac.path.is_ident("extern_blueprint") => {
                let e: Ext = match Ext::parse.parse2(mc.mac.tokens.clone()) { Ok(e) => e, Err(e) => return e.to_compile_error().into() };
                let n = e.name.clone();
                let sg: Vec<Sig> = e.fns.iter().map(|f| sig_of(&f.sig, None)).collect();
                let st = stub_items(&n, &sg);
                out.push(quote! { #[allow(dead_code)] pub struct #n; #st });
            }
            Item::Macro(mc) if mc.mac.path.is_ident("enable_method_auth") => {
                let mut it = mc.mac.tokens.clone().into_iter().peekable();
                let mut ms = vec![];
                while let Some(t) = it.next() {
                    if let TokenTree::Ident(k) = t {
                        if let Some(TokenTree::Group(g)) = it.peek() {
                            let g = g.stream();
                            if k == "roles" { for (n, v) in arms(g) { roles.push((n.to_string(), idents_in_bracket(v))); } }
                            else if k == "methods" { for (n, v) in arms(g) {
                                let public = v.clone().into_iter().next().map_or(false, |t| t.to_string() == "PUBLIC");
                                ms.push((n.to_string(), if public { None } else { Some(idents_in_bracket(v)) }));
                            } }
                        }
                    }
                }
                methods = Some(ms);
            }
            Item::Macro(mc) if mc.mac.path.is_ident("enable_function_auth") => fauth = arms(mc.mac.tokens.clone()),
            Item::Macro(mc) if mc.mac.path.is_ident("enable_package_royalties") => {}
            Item::Struct(mut s) => {
                if bp.is_none() {
                    bp = Some(s.ident.clone());
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); }
                }
                out.push(quote!(#s));
            }
            Item::Impl(i) => {
                let me = bp.clone();
                if let (Type::Path(p), None) = (&*i.self_ty, &i.trait_) {
                    if me.as_ref().map_or(false, |m| p.path.is_ident(m)) {
                        for x in &i.items { if let ImplItem::Fn(f) = x { if matches!(f.vis, Visibility::Public(_)) { sigs.push(sig_of(&f.sig, me.as_ref())); } } }
                    }
                }
                out.push(quote!(#i));
            }
            x => out.push(quote!(#x)),
        }
    }
    let b = bp.unwrap_or_else(|| Ident::new("NoBlueprint", Span::call_site()));
    let stub = stub_items(&b, &sigs);
    let kvs = format_ident!("{}KeyValueStore", b);
    let (mut cm, mut cf) = (vec![], vec![]);
    for s in &sigs {
        let n = &s.name;
        let an: Vec<Ident> = (0..s.args.len()).map(|i| format_ident!("a{}", i)).collect();
        let lets: Vec<TS> = s.args.iter().zip(&an).map(|((_, t), a)| { let u = unboxed(t, quote!(it.next().expect("argument"))); quote!(let #a: #t = #u;) }).collect();
        let call = if s.recv { quote!(s.#n(#(#an),*)) } else { quote!(#b::#n(#(#an),*)) };
        let bx = boxed(&s.ret, call);
        let arm = quote!(stringify!(#n) => { #(#lets)* #bx });
        if s.recv { cm.push(arm) } else { cf.push(arm) }
    }
    let ru: Vec<TS> = roles.iter().map(|(r, u)| quote!(#r => Some(vec![#(#u),*]),)).collect();
    let ma = match &methods {
        None => quote!({ let _ = m; None }),
        Some(v) => {
            let a: Vec<TS> = v.iter().map(|(m, r)| match r { None => quote!(#m => None,), Some(r) => quote!(#m => Some(vec![#(#r),*]),) }).collect();
            quote!(match m { #(#a)* _ => Some(vec![]) })
        }
    };
    let fa: Vec<TS> = fauth.iter().map(|(n, e)| { let n = n.to_string(); if e.to_string() == "PUBLIC" { quote!(#n => None,) } else { quote!(#n => Some(::scrypto::ledger::RoleVal::from(#e)),) } }).collect();
    let res = quote! {
        #[allow(unused_imports, unused_variables, unused_mut, dead_code, private_interfaces, unreachable_code)]
        pub mod #name {
            use ::scrypto::prelude::*;
            use super::*;
            #(#out)*
            #stub
            pub struct #kvs;
            impl #kvs { pub fn new_with_registered_type<K: ::scrypto::sbor::ScryptoSbor, V: 'static>() -> KeyValueStore<K, V> { KeyValueStore::new() } }
            impl #b { pub fn blueprint_id() -> ::scrypto::ledger::BlueprintId { ::scrypto::ledger::BlueprintId { package_address: Runtime::package_address(), blueprint_name: stringify!(#b).to_string() } } }
            impl ::scrypto::ledger::BlueprintImpl for #b {
                fn roles_updaters(role: &str) -> Option<Vec<&'static str>> { match role { #(#ru)* _ => None } }
                fn method_auth(m: &str) -> Option<Vec<&'static str>> { #ma }
                fn function_auth(m: &str) -> Option<::scrypto::ledger::RoleVal> { match m { #(#fa)* _ => None } }
                fn call_m(obj: &mut dyn ::std::any::Any, m: &str, args: Vec<::scrypto::ledger::Boxed>) -> ::scrypto::ledger::Boxed {
                    let s = obj.downcast_mut::<#b>().expect("component state");
                    let mut it = args.into_iter();
                    match m { #(#cm)* _ => ::scrypto::explore::engine_error(&format!("no method {}", m)) }
                }
                fn call_f(m: &str, args: Vec<::scrypto::ledger::Boxed>) -> ::scrypto::ledger::Boxed {
                    let mut it = args.into_iter();
                    match m { #(#cf)* _ => ::scrypto::explore::engine_error(&format!("no function {}", m)) }
                }
            }
        }
    };
    res.into()
}

fn gen(d: &DeriveInput, f: impl FnOnce(TS, TS, TS) -> TS, bound: TS) -> TS {
    let mut g = d.generics.clone();
    for p in g.type_params_mut() { let b: TypeParamBound = parse2(bound.clone()).unwrap(); p.bounds.push(b); }
    let (i, t, w) = g.split_for_impl();
    f(quote!(#i), quote!(#t), quote!(#w))
}

#[proc_macro_derive(ScryptoSbor, attributes(sbor, mutable))]
pub fn scrypto_sbor(i: TokenStream) -> TokenStream {
    let d: DeriveInput = parse_macro_input!(i);
    let n = &d.ident;
    let s = quote!(::scrypto::sbor::ScryptoSbor);
    let (dup, eqb) = match &d.data {
        Data::Struct(st) => match &st.fields {
            Fields::Named(f) => { let k: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect(); (quote!(#n { #(#k: #s::dup(&self.#k)),* }), quote!(true #(&& #s::sbor_eq(&self.#k, &o.#k))*)) }
            Fields::Unnamed(f) => { let k: Vec<Index> = (0..f.unnamed.len()).map(Index::from).collect(); (quote!(#n(#(#s::dup(&self.#k)),*)), quote!(true #(&& #s::sbor_eq(&self.#k, &o.#k))*)) }
            Fields::Unit => (quote!(#n), quote!(true)),
        },
        Data::Enum(e) => {
            let (mut a, mut b) = (vec![], vec![]);
            for v in &e.variants {
                let vn = &v.ident;
                match &v.fields {
                    Fields::Named(f) => {
                        let k: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                        let k2: Vec<_> = k.iter().map(|i| format_ident!("o_{}", i)).collect();
                        a.push(quote!(#n::#vn { #(#k),* } => #n::#vn { #(#k: #s::dup(#k)),* },));
                        b.push(quote!((#n::#vn { #(#k),* }, #n::#vn { #(#k: #k2),* }) => true #(&& #s::sbor_eq(#k, #k2))*,));
                    }
                    Fields::Unnamed(f) => {
                        let k: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("x{}", i)).collect();
                        let k2: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("y{}", i)).collect();
                        a.push(quote!(#n::#vn(#(#k),*) => #n::#vn(#(#s::dup(#k)),*),));
                        b.push(quote!((#n::#vn(#(#k),*), #n::#vn(#(#k2),*)) => true #(&& #s::sbor_eq(#k, #k2))*,));
                    }
                    Fields::Unit => { a.push(quote!(#n::#vn => #n::#vn,)); b.push(quote!((#n::#vn, #n::#vn) => true,)); }
                }
            }
            (quote!(match self { #(#a)* }), quote!(match (self, o) { #(#b)* _ => false }))
        }
        _ => panic!("unions are not supported"),
    };
    gen(&d, |i, t, w| quote! {
        #[allow(unused_variables, unreachable_patterns, non_snake_case)]
        impl #i #s for #n #t #w { fn dup(&self) -> Self { #dup } fn sbor_eq(&self, o: &Self) -> bool { #eqb } }
    }, s.clone()).into()
}
#[proc_macro_derive(ManifestSbor, attributes(sbor, mutable))]
pub fn manifest_sbor(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(ScryptoEvent, attributes(sbor))]
pub fn scrypto_event(i: TokenStream) -> TokenStream {
    let d: DeriveInput = parse_macro_input!(i);
    let n = &d.ident;
    gen(&d, |i, t, w| quote!(impl #i ::scrypto::ledger::ScryptoEvent for #n #t #w {}), quote!('static)).into()
}
#[proc_macro_derive(NonFungibleData, attributes(mutable, sbor))]
pub fn non_fungible_data(i: TokenStream) -> TokenStream {
    let d: DeriveInput = parse_macro_input!(i);
    let n = &d.ident;
    let mut arms = vec![];
    if let Data::Struct(s) = &d.data {
        for f in &s.fields {
            let k = f.ident.as_ref().unwrap();
            if f.attrs.iter().any(|a| a.path().is_ident("mutable")) {
                let ty = &f.ty;
                arms.push(quote!(stringify!(#k) => self.#k = *v.downcast::<#ty>().unwrap_or_else(|_| panic!("non-fungible field type")),));
            }
        }
    }
    quote! { impl ::scrypto::ledger::NonFungibleData for #n { fn set_field(&mut self, f: &str, v: ::scrypto::ledger::Boxed) { match f { #(#arms)* _ => panic!("unknown or immutable non-fungible field {}", f) } } } }.into()
}

#[proc_macro]
pub fn dec(i: TokenStream) -> TokenStream {
    use num_bigint::BigInt;
    let src = i.to_string();
    let s: String = src.trim().trim_matches('"').chars().filter(|c| !c.is_whitespace() && *c != '_').collect();
    let (neg, body) = match s.strip_prefix('-') { Some(b) => (true, b.to_string()), None => (false, s.clone()) };
    let lit = !body.is_empty() && body.chars().all(|c| c.is_ascii_digit() || c == '.') && body.matches('.').count() <= 1;
    if !lit {
        let e: TS = i.into();
        return quote!(::scrypto::num::Decimal::from(#e)).into();
    }
    let (a, b) = body.split_once('.').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((body.clone(), String::new()));
    assert!(b.len() <= 18, "too many decimal places");
    let mut v: BigInt = format!("{}{:0<18}", a, b).parse().unwrap();
    if neg { v = -v; }
    let mut by = v.to_signed_bytes_le();
    let ext = if neg && v < BigInt::from(0) { 255 } else { 0 };
    while by.len() < 24 { by.push(ext); }
    let l: Vec<u64> = (0..3).map(|k| u64::from_le_bytes(by[8 * k..8 * k + 8].try_into().unwrap())).collect();
    quote!(::scrypto::num::Decimal::from_limbs([#(#l),*])).into()
}
