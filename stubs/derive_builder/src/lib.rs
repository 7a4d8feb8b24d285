//! Stand-in for `derive_builder` 0.12 (not available offline).
//!
//! Supports: `#[builder(derive(..))]`, `pattern = "owned" | "mutable" | "immutable"`, `build_fn(validate = "path", ..)`,
//! `default`, `default = "expr"`, `setter(custom | skip, into, strip_option)`, `name`, on structs with named fields.
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TS};
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, DeriveInput, Expr, LitStr, Path, Token};

#[derive(Default, Clone)]
struct Opts {
    derives: Vec<Path>,
    pattern: Option<String>,
    validate: Option<Path>,
    default: Option<Option<Expr>>,
    custom: bool,
    into: bool,
    strip_option: bool,
    name: Option<String>,
}

fn expr_of(lit: LitStr) -> syn::Result<Expr> {
    lit.parse::<Expr>()
        .or_else(|_| lit.parse::<syn::Block>().map(|b| parse_quote!(#b)))
}

fn flag(m: &syn::meta::ParseNestedMeta) -> syn::Result<bool> {
    if m.input.peek(Token![=]) {
        let v = m.value()?;
        if v.peek(LitStr) {
            return Ok(v.parse::<LitStr>()?.value() == "true");
        }
        return Ok(v.parse::<syn::LitBool>()?.value);
    }
    Ok(true)
}

fn parse(attrs: &[syn::Attribute]) -> syn::Result<Opts> {
    let mut o = Opts::default();
    for a in attrs {
        if !a.path().is_ident("builder") {
            continue;
        }
        a.parse_nested_meta(|m| {
            if m.path.is_ident("derive") {
                m.parse_nested_meta(|d| {
                    o.derives.push(d.path.clone());
                    Ok(())
                })
            } else if m.path.is_ident("pattern") {
                o.pattern = Some(m.value()?.parse::<LitStr>()?.value());
                Ok(())
            } else if m.path.is_ident("name") {
                o.name = Some(m.value()?.parse::<LitStr>()?.value());
                Ok(())
            } else if m.path.is_ident("default") {
                o.default = Some(if m.input.peek(Token![=]) {
                    Some(expr_of(m.value()?.parse::<LitStr>()?)?)
                } else {
                    None
                });
                Ok(())
            } else if m.path.is_ident("build_fn") {
                m.parse_nested_meta(|d| {
                    if d.path.is_ident("validate") {
                        o.validate = Some(d.value()?.parse::<LitStr>()?.parse()?);
                        Ok(())
                    } else {
                        Err(d.error("stand-in derive_builder: unsupported build_fn option"))
                    }
                })
            } else if m.path.is_ident("setter") {
                m.parse_nested_meta(|d| {
                    if d.path.is_ident("custom") || d.path.is_ident("skip") {
                        o.custom = flag(&d)?;
                    } else if d.path.is_ident("into") {
                        o.into = flag(&d)?;
                    } else if d.path.is_ident("strip_option") {
                        o.strip_option = flag(&d)?;
                    } else {
                        return Err(d.error("stand-in derive_builder: unsupported setter option"));
                    }
                    Ok(())
                })
            } else if m.path.is_ident("setter_into") {
                Ok(())
            } else {
                Err(m.error("stand-in derive_builder: unsupported option"))
            }
        })?;
    }
    Ok(o)
}

#[proc_macro_derive(Builder, attributes(builder, builder_field_attr, builder_setter_attr))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    match expand(input) {
        Ok(t) => t.into(),
        Err(e) => e.to_compile_error().into(),
    }
}

fn expand(input: DeriveInput) -> syn::Result<TS> {
    let so = parse(&input.attrs)?;
    let name = &input.ident;
    let vis = &input.vis;
    let builder = match &so.name {
        Some(n) => syn::Ident::new(n, Span::call_site()),
        None => format_ident!("{}Builder", name),
    };
    let error = format_ident!("{}Error", builder);
    let owned = so.pattern.as_deref() == Some("owned");
    let syn::Data::Struct(s) = &input.data else {
        return Err(syn::Error::new_spanned(&input, "only structs"));
    };
    let syn::Fields::Named(fields) = &s.fields else {
        return Err(syn::Error::new_spanned(&input, "only named fields"));
    };
    let derives = &so.derives;
    let clone_derive = if owned { quote!() } else { quote!(#[derive(Clone)]) };
    let user_derive = if derives.is_empty() { quote!() } else { quote!(#[derive(#(#derives),*)]) };

    let mut decls = vec![];
    let mut setters = vec![];
    let mut inits = vec![];
    let mut blanks = vec![];
    for f in &fields.named {
        let fo = parse(&f.attrs)?;
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        decls.push(quote!(#id: ::core::option::Option<#ty>));
        blanks.push(quote!(#id: ::core::option::Option::None));
        if !fo.custom {
            let into = fo.into || so.into;
            let (pty, conv) = if into {
                (quote!(impl ::core::convert::Into<#ty>), quote!(value.into()))
            } else {
                (quote!(#ty), quote!(value))
            };
            if owned {
                setters.push(quote! {
                    #[allow(unused_mut)]
                    pub fn #id(self, value: #pty) -> Self {
                        let mut new = self;
                        new.#id = ::core::option::Option::Some(#conv);
                        new
                    }
                });
            } else {
                setters.push(quote! {
                    #[allow(unused_mut)]
                    pub fn #id(&mut self, value: #pty) -> &mut Self {
                        self.#id = ::core::option::Option::Some(#conv);
                        self
                    }
                });
            }
        }
        let lit = id.to_string();
        let missing = match fo.default.or_else(|| so.default.clone()) {
            Some(Some(e)) => quote!(#e),
            Some(None) => quote!(::core::default::Default::default()),
            None => quote!(return ::core::result::Result::Err(#error::UninitializedField(#lit))),
        };
        let take = if owned {
            quote!(self.#id)
        } else {
            quote!(::core::clone::Clone::clone(&self.#id))
        };
        inits.push(quote! {
            #id: match #take {
                ::core::option::Option::Some(v) => v,
                ::core::option::Option::None => #missing,
            }
        });
    }
    let selfty = if owned { quote!(self) } else { quote!(&self) };
    let validate = match &so.validate {
        Some(p) => quote!(#p(&self).map_err(#error::from)?;),
        None => quote!(),
    };
    let validate = if owned || so.validate.is_none() {
        validate
    } else {
        let p = so.validate.as_ref().unwrap();
        quote!(#p(self).map_err(#error::from)?;)
    };
    let doc = format!("Builder for [`{name}`]");
    Ok(quote! {
        #[doc = #doc]
        #clone_derive
        #user_derive
        #vis struct #builder { #(#decls),* }

        #[allow(dead_code, clippy::all)]
        impl #builder {
            #(#setters)*
            pub fn build(#selfty) -> ::core::result::Result<#name, #error> {
                #validate
                Ok(#name { #(#inits),* })
            }
            fn create_empty() -> Self { Self { #(#blanks),* } }
        }
        impl ::core::default::Default for #builder {
            fn default() -> Self { Self::create_empty() }
        }
        /// Error type of the builder
        #[derive(Debug)]
        #[non_exhaustive]
        #vis enum #error {
            /// Uninitialized field
            UninitializedField(&'static str),
            /// Custom validation error
            ValidationError(::std::string::String),
        }
        impl ::core::convert::From<::std::string::String> for #error {
            fn from(s: ::std::string::String) -> Self { Self::ValidationError(s) }
        }
        impl ::core::fmt::Display for #error {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                match self {
                    Self::UninitializedField(n) => write!(f, "`{}` must be initialized", n),
                    Self::ValidationError(e) => write!(f, "{}", e),
                }
            }
        }
        impl ::std::error::Error for #error {}
    })
}
