use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::quote;
use syn::{punctuated::Punctuated, *};

enum Item {
    Word(String, Option<T2>),
}
struct Attrs(Vec<(String, Option<T2>)>);
impl Attrs {
    fn of(attrs: &[Attribute]) -> Attrs {
        let mut v = vec![];
        for a in attrs {
            let n = a.path().get_ident().map(|i| i.to_string()).unwrap_or_default();
            if !matches!(n.as_str(), "arg" | "command" | "clap" | "group") {
                continue;
            }
            let items = a.parse_args_with(Punctuated::<ItemP, Token![,]>::parse_terminated).expect("attribute");
            for i in items {
                let Item::Word(n, t) = i.0;
                v.push((n, t));
            }
        }
        Attrs(v)
    }
    fn has(&self, n: &str) -> bool {
        self.0.iter().any(|x| x.0 == n)
    }
    fn get(&self, n: &str) -> Option<&T2> {
        self.0.iter().find(|x| x.0 == n).and_then(|x| x.1.as_ref())
    }
    fn all(&self, n: &str) -> Vec<&T2> {
        self.0.iter().filter(|x| x.0 == n).filter_map(|x| x.1.as_ref()).collect()
    }
}
struct ItemP(Item);
impl parse::Parse for ItemP {
    fn parse(input: parse::ParseStream) -> Result<Self> {
        let id: Ident = input.call(ext::IdentExt::parse_any)?;
        let n = id.to_string();
        if input.peek(Token![=]) {
            input.parse::<Token![=]>()?;
            let e: Expr = input.parse()?;
            return Ok(ItemP(Item::Word(n, Some(quote!(#e)))));
        }
        if input.peek(token::Paren) {
            let c;
            parenthesized!(c in input);
            let t: T2 = c.parse()?;
            return Ok(ItemP(Item::Word(n, Some(t))));
        }
        Ok(ItemP(Item::Word(n, None)))
    }
}
fn inner<'a>(t: &'a Type, name: &str) -> Option<&'a Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != name {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.first()? {
        GenericArgument::Type(t) => Some(t),
        _ => None,
    }
}
fn is(t: &Type, name: &str) -> bool {
    matches!(t, Type::Path(p) if p.path.is_ident(name))
}
fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                o.push('-')
            }
            o.extend(c.to_lowercase())
        } else if c == '_' {
            o.push('-')
        } else {
            o.push(c)
        }
    }
    o
}
/// (statements that add definitions, subcommand type, field: value expression)
fn fields(fs: &FieldsNamed) -> (Vec<T2>, Option<T2>, Vec<T2>) {
    let (mut defs, mut sub, mut vals) = (vec![], None, vec![]);
    for f in &fs.named {
        let id = f.ident.as_ref().unwrap();
        let t = &f.ty;
        let a = Attrs::of(&f.attrs);
        if a.has("skip") {
            vals.push(quote!(#id: Default::default()));
            continue;
        }
        if a.has("flatten") {
            defs.push(quote!(<#t as ::clap::Args>::defs(out);));
            vals.push(quote!(#id: <#t as ::clap::Args>::take(m)?));
            continue;
        }
        if a.has("subcommand") {
            let (st, opt) = match inner(t, "Option") {
                Some(s) => (s, true),
                None => (t, false),
            };
            sub = Some(quote!(<#st as ::clap::Subcommand>::names()));
            let none = if opt { quote!(None) } else { quote!(return ::core::result::Result::Err("no subcommand".into())) };
            let some = if opt { quote!(Some(v)) } else { quote!(v) };
            vals.push(quote!(#id: match m.sub.take() {
                Some((n, args)) => { let v = <#st as ::clap::Subcommand>::parse_sub(&n, &args, m)?; #some }
                None => #none
            }));
            continue;
        }
        let key = id.to_string();
        let named = a.has("long") || a.has("short");
        let vec = inner(t, "Vec");
        let multi = vec.is_some();
        let flag = is(t, "bool") && named;
        let count = a.get("action").is_some_and(|x| x.to_string().contains("Count"));
        let last = a.get("last").is_some_and(|x| x.to_string() == "true");
        let kind = if count {
            quote!(::clap::Kind::Count)
        } else if flag {
            quote!(::clap::Kind::Flag)
        } else if named {
            quote!(::clap::Kind::Opt(#multi))
        } else {
            quote!(::clap::Kind::Pos(#multi, #last))
        };
        let longs = if a.has("long") {
            let own = match a.get("long") {
                Some(e) => quote!((#e).to_string()),
                None => {
                    let k = kebab(&key);
                    quote!(#k.to_string())
                }
            };
            let al = a.all("alias");
            quote!(vec![#own #(, (#al).to_string())*])
        } else {
            quote!(vec![])
        };
        let short = if a.has("short") {
            match a.get("short") {
                Some(e) => quote!(Some(#e)),
                None => {
                    let c = key.chars().next().unwrap();
                    quote!(Some(#c))
                }
            }
        } else {
            quote!(None)
        };
        let o = |e: Option<&T2>| match e {
            Some(e) => quote!(Some(#e)),
            None => quote!(None),
        };
        let env = o(a.get("env"));
        let default = o(a.get("default_value"));
        let global = a.has("global");
        let list = |n: &str, n2: &str| {
            let one = a.all(n);
            let many = a.all(n2);
            quote!({ let mut v: Vec<&'static str> = vec![#(#one),*]; #( v.extend((#many).iter().copied()); )* v })
        };
        let conflicts = list("conflicts_with", "conflicts_with_all");
        let requires = list("requires", "requires_all");
        let def = quote!(::clap::Def { key: #key, long: #longs, short: #short, kind: #kind, env: #env, default: #default, global: #global, conflicts: #conflicts, requires: #requires });
        defs.push(quote!(out.push(#def);));
        let missing = match a.0.iter().find(|x| x.0 == "default_value_t") {
            Some((_, Some(e))) => quote!(#e),
            Some((_, None)) => quote!(Default::default()),
            None => quote!(return ::core::result::Result::Err(format!("missing argument {}", #key))),
        };
        let value = if count {
            quote!(m.count(&d) as _)
        } else if flag {
            quote!(m.flag(&d))
        } else if let Some(v) = vec {
            quote!(m.all::<#v>(&d)?.unwrap_or_default())
        } else if let Some(v) = inner(t, "Option") {
            let need = a.get("required_unless_present").map(|n| quote!(if r.is_none() && m.of(#n).is_none() { return ::core::result::Result::Err(format!("missing argument {}", #key)); }));
            quote!({ let r = m.one::<#v>(&d)?; #need r })
        } else {
            quote!(match m.one::<#t>(&d)? { Some(v) => v, None => #missing })
        };
        vals.push(quote!(#id: { let d = #def; #value }));
    }
    (defs, sub, vals)
}
fn args(i: &DeriveInput) -> T2 {
    let n = &i.ident;
    let Data::Struct(DataStruct { fields: Fields::Named(fs), .. }) = &i.data else { panic!("not a struct with named fields") };
    let (defs, sub, vals) = fields(fs);
    let sub = sub.map(|s| quote!(fn subs() -> (Vec<Vec<String>>, bool) { #s }));
    quote! {
        impl ::clap::Args for #n {
            fn defs(out: &mut Vec<::clap::Def>) { #(#defs)* }
            #sub
            fn take(m: &mut ::clap::Matches) -> ::clap::Res<Self> { ::core::result::Result::Ok(#n { #(#vals),* }) }
        }
    }
}
fn subcommand(i: &DeriveInput) -> T2 {
    let n = &i.ident;
    let Data::Enum(e) = &i.data else { panic!("not an enum") };
    let (mut names, mut arms, mut any) = (vec![], vec![], false);
    let mut rest = quote!(::core::result::Result::Err(format!("unknown command {name}")));
    for v in &e.variants {
        let vn = &v.ident;
        let cfg: Vec<_> = v.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
        let a = Attrs::of(&v.attrs);
        if a.has("external_subcommand") {
            any = true;
            rest = quote!({
                let mut v = vec![::std::ffi::OsString::from(name)];
                v.extend(args.iter().map(::std::ffi::OsString::from));
                ::core::result::Result::Ok(#n::#vn(v))
            });
            continue;
        }
        let name = kebab(&vn.to_string());
        let al = a.all("alias");
        names.push(quote!(vec![#name.to_string() #(, (#al).to_string())*]));
        let body = match &v.fields {
            Fields::Unit => quote! {{
                #[allow(dead_code)]
                struct A;
                impl ::clap::Args for A {
                    fn defs(_: &mut Vec<::clap::Def>) {}
                    fn take(_: &mut ::clap::Matches) -> ::clap::Res<A> { ::core::result::Result::Ok(A) }
                }
                ::clap::parse_args::<A>(args, m).map(|_| #n::#vn)
            }},
            Fields::Unnamed(u) => {
                let t = &u.unnamed[0].ty;
                quote!(::clap::parse_args::<#t>(args, m).map(#n::#vn))
            }
            Fields::Named(fs) => {
                let (defs, sub, vals) = fields(fs);
                let sub = sub.map(|s| quote!(fn subs() -> (Vec<Vec<String>>, bool) { #s }));
                quote! {{
                    struct A(#n);
                    impl ::clap::Args for A {
                        fn defs(out: &mut Vec<::clap::Def>) { #(#defs)* }
                        #sub
                        fn take(m: &mut ::clap::Matches) -> ::clap::Res<A> { ::core::result::Result::Ok(A(#n::#vn { #(#vals),* })) }
                    }
                    ::clap::parse_args::<A>(args, m).map(|a| a.0)
                }}
            }
        };
        arms.push(quote!(#(#cfg)* #name => #body,));
    }
    quote! {
        impl ::clap::Subcommand for #n {
            fn names() -> (Vec<Vec<String>>, bool) { (vec![#(#names),*], #any) }
            fn parse_sub(name: &str, args: &[String], m: &mut ::clap::Matches) -> ::clap::Res<Self> {
                match name { #(#arms)* _ => #rest }
            }
        }
    }
}
#[proc_macro_derive(Args, attributes(arg, command, clap, group))]
pub fn derive_args(t: TokenStream) -> TokenStream {
    args(&parse_macro_input!(t as DeriveInput)).into()
}
#[proc_macro_derive(Parser, attributes(arg, command, clap, group))]
pub fn derive_parser(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    if matches!(i.data, Data::Enum(_)) {
        return subcommand(&i).into();
    }
    let n = &i.ident;
    let a = args(&i);
    quote!(#a impl ::clap::Parser for #n {}).into()
}
#[proc_macro_derive(Subcommand, attributes(arg, command, clap, group))]
pub fn derive_subcommand(t: TokenStream) -> TokenStream {
    subcommand(&parse_macro_input!(t as DeriveInput)).into()
}
#[proc_macro_derive(ValueEnum, attributes(arg, command, clap, group, value))]
pub fn derive_value_enum(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    let n = &i.ident;
    let Data::Enum(e) = &i.data else { panic!("not an enum") };
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let names: Vec<_> = vs.iter().map(|v| kebab(&v.to_string())).collect();
    quote! {
        impl ::std::str::FromStr for #n {
            type Err = String;
            fn from_str(s: &str) -> ::core::result::Result<Self, String> {
                match s { #(#names => ::core::result::Result::Ok(#n::#vs),)* _ => ::core::result::Result::Err(format!("unknown value {s:?}")) }
            }
        }
    }
    .into()
}
