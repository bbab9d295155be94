//! The forms of parse-display's derives that linkspace uses: literal and "{0}" variants, the
//! lowercase and kebab-case styles, and "{a}-{b}" structs.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn arg(attrs: &[Attribute]) -> (Option<String>, Option<String>) {
    let (mut fmt, mut style) = (None, None);
    for a in attrs.iter().filter(|a| a.path().is_ident("display")) {
        let Meta::List(l) = &a.meta else { panic!("unsupported #[display]") };
        let t = l.tokens.clone();
        if let Ok(s) = parse2::<LitStr>(t.clone()) {
            fmt = Some(s.value());
        } else {
            let nv: MetaNameValue = parse2(t).expect("unsupported #[display(..)]");
            assert!(nv.path.is_ident("style"));
            let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = nv.value else { panic!() };
            style = Some(s.value());
        }
    }
    (fmt, style)
}
fn styled(name: &str, style: Option<&str>) -> String {
    match style {
        None => name.to_string(),
        Some("lowercase") => name.to_lowercase(),
        Some("kebab-case") => {
            let mut o = String::new();
            for (i, c) in name.chars().enumerate() {
                if c.is_uppercase() && i > 0 {
                    o.push('-');
                }
                o.extend(c.to_lowercase());
            }
            o
        }
        Some(o) => panic!("unsupported style {o}"),
    }
}
enum V {
    Unit(Ident, String),
    Inner(Ident, Type),
}
fn variants(e: &DataEnum, style: Option<&str>) -> Vec<V> {
    e.variants
        .iter()
        .map(|v| {
            let (fmt, _) = arg(&v.attrs);
            match (&v.fields, fmt.as_deref()) {
                (Fields::Unit, f) => V::Unit(v.ident.clone(), f.map(str::to_string).unwrap_or_else(|| styled(&v.ident.to_string(), style))),
                (Fields::Unnamed(u), Some("{0}")) if u.unnamed.len() == 1 => V::Inner(v.ident.clone(), u.unnamed[0].ty.clone()),
                _ => panic!("unsupported variant {}", v.ident),
            }
        })
        .collect()
}
/// "{a}-{b}" into ["", "a", "-", "b", ""] (literals at even places)
fn pieces(f: &str) -> Vec<String> {
    f.split(['{', '}']).map(str::to_string).collect()
}

#[proc_macro_derive(Display, attributes(display))]
pub fn display(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let n = &d.ident;
    let (fmt, style) = arg(&d.attrs);
    let body = match &d.data {
        Data::Enum(e) => {
            let arms = variants(e, style.as_deref()).into_iter().map(|v| match v {
                V::Unit(i, s) => quote!( #n::#i => f.pad(#s), ),
                V::Inner(i, _) => quote!( #n::#i(x) => ::core::fmt::Display::fmt(x, f), ),
            });
            quote!( match self { #(#arms)* } )
        }
        Data::Struct(_) => {
            let w = pieces(&fmt.expect("a struct needs a format")).into_iter().enumerate().map(|(i, p)| {
                if i % 2 == 0 {
                    quote!( f.write_str(#p)?; )
                } else {
                    let id = Ident::new(&p, proc_macro2::Span::call_site());
                    quote!( ::core::fmt::Display::fmt(&self.#id, f)?; )
                }
            });
            quote!( #(#w)* Ok(()) )
        }
        _ => panic!("unsupported"),
    };
    quote!( impl ::core::fmt::Display for #n {
        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body }
    })
    .into()
}

#[proc_macro_derive(FromStr, attributes(display))]
pub fn from_str(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let n = &d.ident;
    let (fmt, style) = arg(&d.attrs);
    let body = match &d.data {
        Data::Enum(e) => {
            let arms = variants(e, style.as_deref()).into_iter().map(|v| match v {
                V::Unit(i, s) => quote!( if s == #s { return Ok(#n::#i); } ),
                V::Inner(i, t) => quote!( if let Ok(x) = <#t as ::core::str::FromStr>::from_str(s) { return Ok(#n::#i(x)); } ),
            });
            quote!( #(#arms)* Err(::parse_display::ParseError::new()) )
        }
        Data::Struct(_) => {
            let p = pieces(&fmt.expect("a struct needs a format"));
            assert!(p.len() == 5 && p[0].is_empty() && p[4].is_empty() && !p[2].is_empty(), "unsupported format");
            let (a, sep, b) = (Ident::new(&p[1], proc_macro2::Span::call_site()), &p[2], Ident::new(&p[3], proc_macro2::Span::call_site()));
            quote!(
                let (a, b) = s.split_once(#sep).ok_or_else(::parse_display::ParseError::new)?;
                Ok(#n { #a: a.parse().map_err(|_| ::parse_display::ParseError::new())?, #b: b.parse().map_err(|_| ::parse_display::ParseError::new())? })
            )
        }
        _ => panic!("unsupported"),
    };
    quote!( impl ::core::str::FromStr for #n {
        type Err = ::parse_display::ParseError;
        fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> { #body }
    })
    .into()
}
