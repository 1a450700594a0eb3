use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Expr, ExprLit, Lit, Meta, Token};

#[derive(Default)]
struct Opts {
    option: bool,
    switch: bool,
    subcommand: bool,
    name: Option<String>,
    short: Option<char>,
    default: Option<String>,
    long: Option<String>,
}

fn opts(attrs: &[Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("argh")) {
        let items = a.parse_args_with(syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).expect("argh attribute");
        for m in items {
            match m {
                Meta::Path(p) if p.is_ident("option") => o.option = true,
                Meta::Path(p) if p.is_ident("switch") => o.switch = true,
                Meta::Path(p) if p.is_ident("subcommand") => o.subcommand = true,
                Meta::NameValue(nv) => match (nv.path.get_ident().unwrap().to_string().as_str(), nv.value) {
                    ("name", Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => o.name = Some(s.value()),
                    ("long", Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => o.long = Some(s.value()),
                    ("default", Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => o.default = Some(s.value()),
                    ("short", Expr::Lit(ExprLit { lit: Lit::Char(c), .. })) => o.short = Some(c.value()),
                    ("description", _) => {}
                    (n, _) => panic!("unsupported argh attribute {n}"),
                },
                _ => panic!("unsupported argh attribute"),
            }
        }
    }
    o
}

#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn from_args(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let ty = &input.ident;
    let top = opts(&input.attrs);
    let name = top.name.unwrap_or_default();
    let body = match &input.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let (id, inner) = (&v.ident, &v.fields.iter().next().expect("variant with options").ty);
                quote! { if args.first().map(String::as_str) == Some(<#inner as ::argh::FromArgs>::NAME) {
                    return <#inner as ::argh::FromArgs>::from_args(&args[1..]).map(#ty::#id);
                } }
            });
            quote! { #(#arms)* Err(format!("Unrecognized or missing command: {:?}", args.first())) }
        }
        Data::Struct(s) => {
            let (mut decls, mut arms, mut ends, mut sub) = (vec![], vec![], vec![], None);
            for f in &s.fields {
                let (id, fty, o) = (f.ident.as_ref().unwrap(), &f.ty, opts(&f.attrs));
                let long = format!("--{}", o.long.unwrap_or_else(|| id.to_string().replace('_', "-")));
                let short = o.short.map_or(String::from("\0"), |c| format!("-{c}"));
                if o.subcommand {
                    sub = Some(quote! { #id = Some(<#fty as ::argh::FromArgs>::from_args(&args[i..])?); break; });
                    decls.push(quote! { let mut #id: Option<#fty> = None; });
                    ends.push(quote! { #id: #id.ok_or_else(|| String::from("One of the subcommands must be present"))? });
                } else if o.switch {
                    decls.push(quote! { let mut #id = false; });
                    arms.push(quote! { if a == #long || a == #short { #id = true; i += 1; continue; } });
                    ends.push(quote! { #id });
                } else {
                    decls.push(quote! { let mut #id: Option<#fty> = None; });
                    arms.push(quote! { if a == #long || a == #short {
                        let v = args.get(i + 1).ok_or_else(|| format!("No value provided for option '{a}'."))?;
                        #id = Some(<#fty as ::argh::Slot>::put(#id.take(), v)?);
                        i += 2;
                        continue;
                    } });
                    let other = match o.default {
                        Some(d) => {
                            let e: Expr = syn::parse_str(&d).expect("default");
                            quote! { #id.unwrap_or_else(|| #e) }
                        }
                        None => quote! { match #id { Some(v) => v, None => <#fty as ::argh::Slot>::missing().ok_or_else(|| format!("Required options not provided: {}", #long))? } },
                    };
                    ends.push(quote! { #id: #other });
                }
            }
            let rest = sub.unwrap_or_else(|| quote! { return Err(format!("Unrecognized argument: {a}")); });
            quote! {
                #(#decls)*
                let mut i = 0;
                #[allow(unreachable_code)]
                while i < args.len() {
                    let a = args[i].as_str();
                    #(#arms)*
                    #rest
                }
                Ok(#ty { #(#ends),* })
            }
        }
        Data::Union(_) => panic!("unions are not supported"),
    };
    quote! {
        impl ::argh::FromArgs for #ty {
            const NAME: &'static str = #name;
            #[allow(unused_mut, unused_assignments, clippy::all)]
            fn from_args(args: &[String]) -> Result<Self, String> { #body }
        }
    }
    .into()
}
