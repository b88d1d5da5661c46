//! derive(Clap) for the stand-in: structs with named String/bool/FromStr options or one subcommand field, enums of subcommands
extern crate proc_macro;
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Lit, Meta, NestedMeta, Type};

fn no(s: &str) -> ! { panic!("the clap stand-in does not know {}", s) }
fn kebab(s: &str) -> String {
    let mut r = String::new();
    for (i, ch) in s.chars().enumerate() {
        if ch == '_' { r.push('-'); } else { if ch.is_uppercase() && i > 0 { r.push('-'); } r.extend(ch.to_lowercase()); }
    }
    r
}
fn lit(l: &Lit) -> String {
    match l { Lit::Str(s) => s.value(), Lit::Char(c) => c.value().to_string(), _ => no("an attribute value") }
}
#[derive(Default)]
struct At { sub: bool, short: Option<String>, long: Option<String>, default: Option<String>, name: Option<String> }
fn attrs(v: &[Attribute], field: &str) -> At {
    let mut a = At::default();
    for x in v {
        if !x.path.is_ident("clap") { continue; }
        match x.parse_meta() {
            Ok(Meta::List(l)) => for n in l.nested.iter() {
                match n {
                    NestedMeta::Meta(Meta::Path(p)) if p.is_ident("subcommand") => a.sub = true,
                    NestedMeta::Meta(Meta::Path(p)) if p.is_ident("short") => a.short = Some(field[..1].to_string()),
                    NestedMeta::Meta(Meta::Path(p)) if p.is_ident("long") => a.long = Some(kebab(field)),
                    NestedMeta::Meta(Meta::NameValue(nv)) => {
                        let k = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                        match &k[..] {
                            "short" => a.short = Some(lit(&nv.lit)), "long" => a.long = Some(lit(&nv.lit)), "default_value" => a.default = Some(lit(&nv.lit)),
                            "name" => a.name = Some(lit(&nv.lit)),
                            "about" | "help" | "version" | "author" | "long_about" | "value_name" | "display_order" => {}
                            _ => no(&k),
                        }
                    }
                    NestedMeta::Meta(Meta::Path(p)) if p.is_ident("about") || p.is_ident("version") || p.is_ident("author") => {}
                    _ => no("an attribute"),
                }
            },
            _ => no("an attribute form"),
        }
    }
    a
}
fn last(t: &Type) -> String { if let Type::Path(p) = t { p.path.segments.last().unwrap().ident.to_string() } else { no("a field type") } }

#[proc_macro_derive(Clap, attributes(clap))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let body = match &d.data {
        Data::Struct(s) => {
            let fields: Vec<_> = match &s.fields { Fields::Named(f) => f.named.iter().collect(), Fields::Unit => vec![], _ => no("a tuple struct") };
            let ats: Vec<At> = fields.iter().map(|f| attrs(&f.attrs, &f.ident.as_ref().unwrap().to_string())).collect();
            if ats.iter().any(|a| a.sub) {
                if fields.len() != 1 { no("options beside a subcommand"); }
                let (id, ty) = (&fields[0].ident, &fields[0].ty);
                quote! { #name { #id: <#ty as clap::Clap>::from_args(args) } }
            } else {
                let mut opts = vec![];
                let mut inits = vec![];
                for (f, a) in fields.iter().zip(ats.iter()) {
                    let id = f.ident.as_ref().unwrap();
                    let fs = id.to_string();
                    let t = last(&f.ty);
                    let opt = |x: &Option<String>| match x { Some(s) => quote! { Some(#s) }, None => quote! { None } };
                    let (s, l, df) = (opt(&a.short), opt(&a.long), opt(&a.default));
                    if a.short.is_none() && a.long.is_none() { no("a positional argument"); }
                    let (req, flag) = (t != "Option" && t != "bool", t == "bool");
                    opts.push(quote! { clap::Opt { field: #fs, short: #s, long: #l, default: #df, required: #req, flag: #flag } });
                    inits.push(match &t[..] {
                        "bool" => quote! { #id: m.contains_key(#fs) },
                        "Option" => quote! { #id: m.remove(#fs).map(|v| v.parse().unwrap_or_else(|_| clap::usage("invalid value"))) },
                        _ => quote! { #id: m.remove(#fs).unwrap().parse().unwrap_or_else(|_| clap::usage("invalid value")) },
                    });
                }
                quote! { let mut m = clap::options(args, &[#(#opts),*]); let _ = &mut m; #name { #(#inits),* } }
            }
        }
        Data::Enum(e) => {
            let mut arms = vec![];
            for v in e.variants.iter() {
                let a = attrs(&v.attrs, &v.ident.to_string());
                let (id, k) = (&v.ident, a.name.unwrap_or_else(|| kebab(&v.ident.to_string())));
                arms.push(match &v.fields {
                    Fields::Unnamed(f) if f.unnamed.len() == 1 => { let ty = &f.unnamed[0].ty; quote! { Some(#k) => #name::#id(<#ty as clap::Clap>::from_args(rest)) } }
                    Fields::Unit => quote! { Some(#k) => #name::#id },
                    _ => no("a subcommand form"),
                });
            }
            quote! { let rest: Vec<String> = args.iter().skip(1).cloned().collect(); match args.get(0).map(|s| &s[..]) { #(#arms,)* _ => clap::usage("no such subcommand") } }
        }
        _ => no("a union"),
    };
    let (ig, tg, wg) = d.generics.split_for_impl();
    (quote! { impl #ig clap::Clap for #name #tg #wg { fn from_args(args: Vec<String>) -> Self { #body } } }).into()
}
