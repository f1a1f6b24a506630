use std::collections::BTreeMap;
use std::collections::HashMap;

use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS2;
use quote::format_ident;
use quote::quote;
use syn::parse::Parse;
use syn::parse::ParseStream;
use syn::*;

#[proc_macro_attribute]
pub fn dimension(_args: TokenStream, input: TokenStream) -> TokenStream {
    let s: ItemStruct = parse(input).unwrap();
    let name = &s.ident;
    let fields: Vec<_> = s
        .fields
        .iter()
        .map(|f| f.ident.clone().unwrap())
        .collect();
    quote! {
        #[derive(PartialEq, Eq, Clone, Copy, Debug, ::core::marker::ConstParamTy)]
        #s
        impl #name {
            pub const fn none() -> Self { Self { #(#fields: 0,)* } }
            pub const fn dimension_mul(self, o: Self) -> Self { Self { #(#fields: self.#fields + o.#fields,)* } }
            pub const fn dimension_div(self, o: Self) -> Self { Self { #(#fields: self.#fields - o.#fields,)* } }
            pub const fn dimension_inv(self) -> Self { Self { #(#fields: -self.#fields,)* } }
            pub const fn dimension_powi(self, o: i32) -> Self { Self { #(#fields: self.#fields * o,)* } }
            pub const fn dimension_sqrt(self) -> Self {
                #(if self.#fields % 2 != 0 { panic!("Cannot take square root of quantity with uneven dimension exponent"); })*
                Self { #(#fields: self.#fields / 2,)* }
            }
            pub const fn dimension_cbrt(self) -> Self {
                #(if self.#fields % 3 != 0 { panic!("Cannot take cubic root of this quantity"); })*
                Self { #(#fields: self.#fields / 3,)* }
            }
        }
    }
    .into()
}

type Dim = BTreeMap<String, i32>;

enum Entry {
    Def(Ident, DefRhs),
    Unit(Ident, Option<String>, Expr),
    Constant(Ident, Expr),
}
enum DefRhs {
    Map(Dim),
    Expr(Expr),
}

struct Sys {
    quantity: Ident,
    dimension: Ident,
    entries: Vec<Entry>,
}

impl Parse for Entry {
    fn parse(input: ParseStream) -> Result<Self> {
        let kw: Ident = input.parse()?;
        match kw.to_string().as_str() {
            "def" => {
                let name: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                if input.peek(token::Brace) {
                    let c;
                    braced!(c in input);
                    let mut d = Dim::new();
                    while !c.is_empty() {
                        let f: Ident = c.parse()?;
                        c.parse::<Token![:]>()?;
                        let neg = c.parse::<Option<Token![-]>>()?.is_some();
                        let v: LitInt = c.parse()?;
                        let v: i32 = v.base10_parse()?;
                        let v = if neg { -v } else { v };
                        if v != 0 {
                            d.insert(f.to_string(), v);
                        }
                        let _ = c.parse::<Option<Token![,]>>()?;
                    }
                    Ok(Entry::Def(name, DefRhs::Map(d)))
                } else {
                    Ok(Entry::Def(name, DefRhs::Expr(input.parse()?)))
                }
            }
            "unit" => {
                let (name, symbol) = if input.peek(token::Paren) {
                    let c;
                    parenthesized!(c in input);
                    let name: Ident = c.parse()?;
                    let mut symbol = None;
                    while !c.is_empty() {
                        c.parse::<Token![,]>()?;
                        if c.is_empty() {
                            break;
                        }
                        let s: LitStr = c.parse()?;
                        if symbol.is_none() {
                            symbol = Some(s.value());
                        }
                    }
                    (name, symbol)
                } else {
                    (input.parse()?, None)
                };
                input.parse::<Token![=]>()?;
                Ok(Entry::Unit(name, symbol, input.parse()?))
            }
            "constant" => {
                let name: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                Ok(Entry::Constant(name, input.parse()?))
            }
            x => panic!("unexpected keyword {x}"),
        }
    }
}

impl Parse for Sys {
    fn parse(input: ParseStream) -> Result<Self> {
        let quantity = input.parse()?;
        input.parse::<Token![,]>()?;
        let dimension = input.parse()?;
        input.parse::<Token![,]>()?;
        let c;
        bracketed!(c in input);
        let entries = c.parse_terminated(Entry::parse, Token![,])?;
        let _ = input.parse::<Option<Token![,]>>()?;
        Ok(Self {
            quantity,
            dimension,
            entries: entries.into_iter().collect(),
        })
    }
}

struct Ctx<'a> {
    map: HashMap<String, &'a Entry>,
}

fn combine(a: &Dim, b: &Dim, sign: i32) -> Dim {
    let mut r = a.clone();
    for (k, v) in b {
        *r.entry(k.clone()).or_insert(0) += sign * v;
    }
    r.retain(|_, v| *v != 0);
    r
}

impl<'a> Ctx<'a> {
    fn eval_name(&self, n: &str) -> (f64, Dim) {
        match self.map.get(n).unwrap_or_else(|| panic!("unknown name {n}")) {
            Entry::Def(_, DefRhs::Map(d)) => (1.0, d.clone()),
            Entry::Def(_, DefRhs::Expr(e)) | Entry::Unit(_, _, e) | Entry::Constant(_, e) => {
                self.eval(e)
            }
        }
    }
    fn eval(&self, e: &Expr) -> (f64, Dim) {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => (i.base10_parse::<f64>().unwrap(), Dim::new()),
                Lit::Float(f) => (f.base10_parse::<f64>().unwrap(), Dim::new()),
                _ => panic!("bad literal"),
            },
            Expr::Paren(p) => self.eval(&p.expr),
            Expr::Group(p) => self.eval(&p.expr),
            Expr::Path(p) => self.eval_name(&p.path.get_ident().unwrap().to_string()),
            Expr::Unary(u) => {
                let (a, d) = self.eval(&u.expr);
                (-a, d)
            }
            Expr::Binary(b) => {
                let (x, dx) = self.eval(&b.left);
                let (y, dy) = self.eval(&b.right);
                match b.op {
                    BinOp::Mul(_) => (x * y, combine(&dx, &dy, 1)),
                    BinOp::Div(_) => (x / y, combine(&dx, &dy, -1)),
                    BinOp::Add(_) => (x + y, dx),
                    BinOp::Sub(_) => (x - y, dx),
                    _ => panic!("bad operator"),
                }
            }
            _ => panic!("bad expression"),
        }
    }
}

fn dim_tokens(dimension: &Ident, d: &Dim) -> TS2 {
    let names = d.keys().map(|k| format_ident!("{}", k));
    let vals = d.values();
    quote! { #dimension { #(#names: #vals,)* ..#dimension::none() } }
}

#[proc_macro]
pub fn unit_system(input: TokenStream) -> TokenStream {
    let sys: Sys = parse_macro_input!(input as Sys);
    let q = &sys.quantity;
    let dimension = &sys.dimension;
    let mut map = HashMap::new();
    for e in &sys.entries {
        let n = match e {
            Entry::Def(n, _) | Entry::Unit(n, _, _) | Entry::Constant(n, _) => n.to_string(),
        };
        map.insert(n, e);
    }
    let ctx = Ctx { map };

    let mut f_defs = vec![];
    let mut v2_defs = vec![];
    let mut v3_defs = vec![];
    let mut unit_impls = vec![];
    let mut consts = vec![];
    let mut unit_table = vec![];
    for e in &sys.entries {
        match e {
            Entry::Def(n, _) => {
                let (_, d) = ctx.eval_name(&n.to_string());
                let d = dim_tokens(dimension, &d);
                f_defs.push(quote! { pub type #n = #q<f64, { #d }>; });
                v2_defs.push(quote! { pub type #n = #q<::glam::DVec2, { #d }>; });
                v3_defs.push(quote! { pub type #n = #q<::glam::DVec3, { #d }>; });
            }
            Entry::Unit(n, symbol, expr) => {
                let (factor, d) = ctx.eval(expr);
                let d = dim_tokens(dimension, &d);
                let in_n = format_ident!("in_{}", n);
                unit_impls.push(quote! {
                    impl #q<f64, { #d }> {
                        pub const fn #n(val: f64) -> Self { Self(val * #factor) }
                        pub fn #in_n(self) -> f64 { self.0 / #factor }
                    }
                    impl #q<::glam::DVec2, { #d }> {
                        pub fn #n(x: impl Into<f64>, y: impl Into<f64>) -> Self {
                            Self(::glam::DVec2::new(x.into(), y.into()) * #factor)
                        }
                        pub fn #in_n(self) -> ::glam::DVec2 { self.0 / #factor }
                    }
                    impl #q<::glam::DVec3, { #d }> {
                        pub fn #n(x: impl Into<f64>, y: impl Into<f64>, z: impl Into<f64>) -> Self {
                            Self(::glam::DVec3::new(x.into(), y.into(), z.into()) * #factor)
                        }
                        pub fn #in_n(self) -> ::glam::DVec3 { self.0 / #factor }
                    }
                });
                if let Some(s) = symbol {
                    unit_table.push(quote! { (#s, #factor, #d) });
                }
            }
            Entry::Constant(n, expr) => {
                let (factor, d) = ctx.eval(expr);
                let d = dim_tokens(dimension, &d);
                consts.push(quote! { pub const #n: #q<f64, { #d }> = #q(#factor); });
            }
        }
    }

    let none = quote! { { #dimension::none() } };
    let vec_impl = |v: TS2, comps: &[&str]| {
        let c: Vec<_> = comps.iter().map(|c| format_ident!("{}", c)).collect();
        let new_c: Vec<_> = comps.iter().map(|c| format_ident!("new_{}", c)).collect();
        let n = comps.len();
        quote! {
            impl<const D: #dimension> #q<#v, D> {
                pub fn new(#(#c: #q<f64, D>),*) -> Self { Self(<#v>::new(#(#c.0),*)) }
                #(
                    pub fn #new_c(v: #q<f64, D>) -> Self {
                        let mut r = <#v>::ZERO;
                        r.#c = v.0;
                        Self(r)
                    }
                    pub fn #c(&self) -> #q<f64, D> { #q(self.0.#c) }
                )*
                pub fn zero() -> Self { Self(<#v>::ZERO) }
                pub fn length(&self) -> #q<f64, D> { #q(self.0.length()) }
                pub fn distance(&self, o: &Self) -> #q<f64, D> { #q(self.0.distance(o.0)) }
                pub fn abs(self) -> Self { Self(self.0.abs()) }
                pub fn min(self, o: Self) -> Self { Self(self.0.min(o.0)) }
                pub fn max(self, o: Self) -> Self { Self(self.0.max(o.0)) }
                pub fn normalize(&self) -> #q<#v, #none> { #q(self.0.normalize()) }
                pub fn dot<const DR: #dimension>(self, o: #q<#v, DR>) -> #q<f64, { D.dimension_mul(DR) }>
                where #q<f64, { D.dimension_mul(DR) }>:
                { #q(self.0.dot(o.0)) }
            }
            impl<const D: #dimension> ::core::ops::Mul<#q<f64, D>> for #v {
                type Output = #q<#v, D>;
                fn mul(self, o: #q<f64, D>) -> #q<#v, D> { #q(self * o.0) }
            }
            impl<const D: #dimension> ::core::ops::Mul<#v> for #q<f64, D> {
                type Output = #q<#v, D>;
                fn mul(self, o: #v) -> #q<#v, D> { #q(self.0 * o) }
            }
            impl<const D: #dimension> ::core::ops::Div<#q<f64, D>> for #v
            where #q<f64, { D.dimension_inv() }>:
            {
                type Output = #q<#v, { D.dimension_inv() }>;
                fn div(self, o: #q<f64, D>) -> Self::Output { #q(self / o.0) }
            }
            impl<const D: #dimension> ::core::ops::Mul<f64> for #q<#v, D> {
                type Output = Self;
                fn mul(self, o: f64) -> Self { Self(self.0 * o) }
            }
            impl<const D: #dimension> ::core::ops::Mul<#q<#v, D>> for f64 {
                type Output = #q<#v, D>;
                fn mul(self, o: #q<#v, D>) -> #q<#v, D> { #q(self * o.0) }
            }
            impl<const D: #dimension> ::core::ops::Div<f64> for #q<#v, D> {
                type Output = Self;
                fn div(self, o: f64) -> Self { Self(self.0 / o) }
            }
            impl<const D: #dimension> ::core::ops::MulAssign<f64> for #q<#v, D> {
                fn mul_assign(&mut self, o: f64) { self.0 *= o; }
            }
            impl<const D: #dimension> ::core::ops::DivAssign<f64> for #q<#v, D> {
                fn div_assign(&mut self, o: f64) { self.0 /= o; }
            }
            impl<const D: #dimension> ::core::iter::Sum for #q<#v, D> {
                fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) }
            }
            impl<const D: #dimension> ::serde::Serialize for #q<#v, D> {
                fn serialize<S: ::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> {
                    let arr = [#(self.0.#c),*];
                    let parts: Vec<String> = arr.iter().map(|x| format!("{:?}", x)).collect();
                    let (sym, f) = __diman_support::base_symbol(D);
                    let _ = f;
                    s.serialize_str(format!("({}) {}", parts.join(" "), sym).trim())
                }
            }
            impl<'de, const D: #dimension> ::serde::Deserialize<'de> for #q<#v, D> {
                fn deserialize<De: ::serde::Deserializer<'de>>(d: De) -> ::core::result::Result<Self, De::Error> {
                    let s = <String as ::serde::Deserialize>::deserialize(d)?;
                    __diman_support::parse_vec::<#n>(&s, D)
                        .map(|a| { let [#(#c),*] = a; Self(<#v>::new(#(#c),*)) })
                        .map_err(::serde::de::Error::custom)
                }
            }
            unsafe impl<const D: #dimension> ::mpi::traits::Equivalence for #q<#v, D> {
                type Out = ::mpi::datatype::DatatypeRef<'static>;
                fn equivalent_datatype() -> Self::Out {
                    __diman_support::contiguous_f64(#n)
                }
            }
            unsafe impl<const D: #dimension> ::hdf5::H5Type for #q<#v, D> {
                fn type_descriptor() -> ::hdf5::types::TypeDescriptor {
                    <[f64; #n] as ::hdf5::H5Type>::type_descriptor()
                }
            }
        }
    };
    let vec2 = vec_impl(quote! { ::glam::DVec2 }, &["x", "y"]);
    let vec3 = vec_impl(quote! { ::glam::DVec3 }, &["x", "y", "z"]);

    let dimless_math = ["sin", "cos", "tan", "asin", "acos", "atan", "exp", "exp2", "ln", "log2", "log10", "floor", "ceil", "sinh", "cosh", "tanh"]
        .iter()
        .map(|n| {
            let n = format_ident!("{}", n);
            quote! { pub fn #n(&self) -> Self { Self(self.0.#n()) } }
        });

    quote! {
        #[derive(Clone, Copy, PartialEq, PartialOrd, Eq, Default)]
        #[repr(transparent)]
        pub struct #q<S, const D: #dimension>(pub(crate) S);

        pub mod f64 { use super::#q; use super::#dimension; #(#f_defs)* }
        pub mod dvec2 { use super::#q; use super::#dimension; #(#v2_defs)* }
        pub mod dvec3 { use super::#q; use super::#dimension; #(#v3_defs)* }

        #(#consts)*
        #(#unit_impls)*

        #[doc(hidden)]
        pub(crate) mod __diman_support {
            use super::#dimension;
            pub static UNITS: &[(&str, f64, #dimension)] = &[#(#unit_table),*];

            /// The symbol of a unit with factor one, or the first with this dimension
            pub fn base_symbol(d: #dimension) -> (&'static str, f64) {
                for (s, f, ud) in UNITS { if *ud == d && *f == 1.0 { return (s, *f); } }
                for (s, f, ud) in UNITS { if *ud == d { return (s, *f); } }
                ("", 1.0)
            }
            pub fn find_unit(s: &str, d: #dimension) -> Result<f64, String> {
                let s = s.trim();
                for (u, f, ud) in UNITS { if *u == s && *ud == d { return Ok(*f); } }
                // products of unit symbols with integer exponents, e.g. "kg m^-3", "s^-1"
                let mut factor = 1.0; let mut dim = #dimension::none();
                if !s.is_empty() {
                    for part in s.split_whitespace() {
                        let (name, exp) = match part.split_once('^') {
                            Some((n, e)) => (n, e.parse::<i32>().map_err(|_| format!("bad exponent in unit {}", s))?),
                            None => (part, 1),
                        };
                        let (_, f, ud) = UNITS.iter().find(|(u, _, _)| *u == name).ok_or_else(|| format!("unknown unit {}", s))?;
                        factor *= f.powi(exp);
                        dim = dim.dimension_mul(ud.dimension_powi(exp));
                    }
                }
                if dim == d { Ok(factor) } else { Err(format!("mismatch in dimensions: unit '{}'", s)) }
            }
            pub fn parse_f64(s: &str, d: #dimension) -> Result<f64, String> {
                let s = s.trim();
                let (num, unit) = match s.find(char::is_whitespace) {
                    Some(i) => (&s[..i], &s[i..]),
                    None => (s, ""),
                };
                let v: f64 = num.parse().map_err(|_| format!("failed to parse quantity '{}'", s))?;
                Ok(v * find_unit(unit, d)?)
            }
            pub fn parse_vec<const N: usize>(s: &str, d: #dimension) -> Result<[f64; N], String> {
                let s = s.trim();
                let err = || format!("failed to parse vector quantity '{}'", s);
                let rest = s.strip_prefix('(').ok_or_else(err)?;
                let (nums, unit) = rest.split_once(')').ok_or_else(err)?;
                let f = find_unit(unit, d)?;
                let v: Vec<f64> = nums.split_whitespace().map(|x| x.parse::<f64>().map(|x| x * f)).collect::<Result<_, _>>().map_err(|_| err())?;
                v.try_into().map_err(|_| err())
            }
            /// Symbol string for serialization, composed from SI base units where no unit of the dimension exists
            pub fn contiguous_f64(n: usize) -> ::mpi::datatype::DatatypeRef<'static> {
                use ::mpi::traits::Equivalence;
                use ::mpi::datatype::Datatype;
                use ::mpi::traits::AsRaw;
                use ::mpi::traits::FromRaw;
                thread_local! {
                    static CACHE: std::cell::RefCell<std::collections::BTreeMap<usize, &'static ::mpi::datatype::UserDatatype>> = Default::default();
                }
                CACHE.with(|c| {
                    let t: &'static ::mpi::datatype::UserDatatype = c.borrow_mut().entry(n).or_insert_with(|| {
                        Box::leak(Box::new(::mpi::datatype::UserDatatype::contiguous(n as i32, &f64::equivalent_datatype())))
                    });
                    unsafe { ::mpi::datatype::DatatypeRef::from_raw(t.as_raw()) }
                })
            }
        }

        impl<S, const D: #dimension> #q<S, D> {
            pub const fn new_unchecked(s: S) -> Self { Self(s) }
        }
        impl<S: Copy, const D: #dimension> #q<S, D> {
            pub fn value_unchecked(&self) -> S { self.0 }
        }
        impl<S: Copy> #q<S, #none> {
            pub fn value(&self) -> S { self.0 }
        }
        impl<S: ::core::ops::Add<Output = S>, const D: #dimension> ::core::ops::Add for #q<S, D> {
            type Output = Self;
            fn add(self, o: Self) -> Self { Self(self.0 + o.0) }
        }
        impl<S: ::core::ops::Sub<Output = S>, const D: #dimension> ::core::ops::Sub for #q<S, D> {
            type Output = Self;
            fn sub(self, o: Self) -> Self { Self(self.0 - o.0) }
        }
        impl<S: ::core::ops::AddAssign, const D: #dimension> ::core::ops::AddAssign for #q<S, D> {
            fn add_assign(&mut self, o: Self) { self.0 += o.0; }
        }
        impl<S: ::core::ops::SubAssign, const D: #dimension> ::core::ops::SubAssign for #q<S, D> {
            fn sub_assign(&mut self, o: Self) { self.0 -= o.0; }
        }
        impl<S: ::core::ops::Neg<Output = S>, const D: #dimension> ::core::ops::Neg for #q<S, D> {
            type Output = Self;
            fn neg(self) -> Self { Self(-self.0) }
        }
        impl<SL, SR, const DL: #dimension, const DR: #dimension> ::core::ops::Mul<#q<SR, DR>> for #q<SL, DL>
        where SL: ::core::ops::Mul<SR>, #q<SL::Output, { DL.dimension_mul(DR) }>:
        {
            type Output = #q<SL::Output, { DL.dimension_mul(DR) }>;
            fn mul(self, o: #q<SR, DR>) -> Self::Output { #q(self.0 * o.0) }
        }
        impl<SL, SR, const DL: #dimension, const DR: #dimension> ::core::ops::Div<#q<SR, DR>> for #q<SL, DL>
        where SL: ::core::ops::Div<SR>, #q<SL::Output, { DL.dimension_div(DR) }>:
        {
            type Output = #q<SL::Output, { DL.dimension_div(DR) }>;
            fn div(self, o: #q<SR, DR>) -> Self::Output { #q(self.0 / o.0) }
        }
        impl<S, const D: #dimension> ::core::ops::MulAssign<#q<f64, #none>> for #q<S, D>
        where S: ::core::ops::MulAssign<f64>
        {
            fn mul_assign(&mut self, o: #q<f64, #none>) { self.0 *= o.0; }
        }
        impl<S, const D: #dimension> ::core::ops::DivAssign<#q<f64, #none>> for #q<S, D>
        where S: ::core::ops::DivAssign<f64>
        {
            fn div_assign(&mut self, o: #q<f64, #none>) { self.0 /= o.0; }
        }
        // f64
        impl<const D: #dimension> ::core::ops::Mul<f64> for #q<f64, D> {
            type Output = Self;
            fn mul(self, o: f64) -> Self { Self(self.0 * o) }
        }
        impl<const D: #dimension> ::core::ops::Mul<#q<f64, D>> for f64 {
            type Output = #q<f64, D>;
            fn mul(self, o: #q<f64, D>) -> #q<f64, D> { #q(self * o.0) }
        }
        impl<const D: #dimension> ::core::ops::Div<f64> for #q<f64, D> {
            type Output = Self;
            fn div(self, o: f64) -> Self { Self(self.0 / o) }
        }
        impl<const D: #dimension> ::core::ops::Div<#q<f64, D>> for f64
        where #q<f64, { D.dimension_inv() }>:
        {
            type Output = #q<f64, { D.dimension_inv() }>;
            fn div(self, o: #q<f64, D>) -> Self::Output { #q(self / o.0) }
        }
        impl<const D: #dimension> ::core::ops::MulAssign<f64> for #q<f64, D> {
            fn mul_assign(&mut self, o: f64) { self.0 *= o; }
        }
        impl<const D: #dimension> ::core::ops::DivAssign<f64> for #q<f64, D> {
            fn div_assign(&mut self, o: f64) { self.0 /= o; }
        }
        impl<const D: #dimension> ::core::iter::Sum for #q<f64, D> {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) }
        }
        impl<'a, const D: #dimension> ::core::iter::Sum<&'a #q<f64, D>> for #q<f64, D> {
            fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + *b) }
        }
        impl<const D: #dimension> #q<f64, D> {
            pub const fn zero() -> Self { Self(0.0) }
            pub fn abs(&self) -> Self { Self(self.0.abs()) }
            pub fn min(self, o: impl Into<Self>) -> Self { Self(self.0.min(o.into().0)) }
            pub fn max(self, o: impl Into<Self>) -> Self { Self(self.0.max(o.into().0)) }
            pub fn is_positive(&self) -> bool { self.0 > 0.0 }
            pub fn is_negative(&self) -> bool { self.0 < 0.0 }
            pub fn is_nan(&self) -> bool { self.0.is_nan() }
            pub fn is_finite(&self) -> bool { self.0.is_finite() }
            pub fn is_infinite(&self) -> bool { self.0.is_infinite() }
            pub fn signum(&self) -> f64 { self.0.signum() }
            pub fn squared(&self) -> #q<f64, { D.dimension_powi(2) }> where #q<f64, { D.dimension_powi(2) }>: { #q(self.0.powi(2)) }
            pub fn cubed(&self) -> #q<f64, { D.dimension_powi(3) }> where #q<f64, { D.dimension_powi(3) }>: { #q(self.0.powi(3)) }
            pub fn powi<const I: i32>(&self) -> #q<f64, { D.dimension_powi(I) }> where #q<f64, { D.dimension_powi(I) }>: { #q(self.0.powi(I)) }
            pub fn sqrt(&self) -> #q<f64, { D.dimension_sqrt() }> where #q<f64, { D.dimension_sqrt() }>: { #q(self.0.sqrt()) }
            pub fn cbrt(&self) -> #q<f64, { D.dimension_cbrt() }> where #q<f64, { D.dimension_cbrt() }>: { #q(self.0.cbrt()) }
            pub fn total_cmp(&self, o: &Self) -> ::core::cmp::Ordering { self.0.total_cmp(&o.0) }
        }
        impl #q<f64, #none> {
            #(#dimless_math)*
            pub fn log(&self, base: f64) -> Self { Self(self.0.log(base)) }
            pub fn clamp(self, a: impl Into<f64>, b: impl Into<f64>) -> Self { Self(self.0.clamp(a.into(), b.into())) }
        }
        impl<S> ::core::ops::Deref for #q<S, #none> {
            type Target = S;
            fn deref(&self) -> &S { &self.0 }
        }
        impl<S> ::core::ops::DerefMut for #q<S, #none> {
            fn deref_mut(&mut self) -> &mut S { &mut self.0 }
        }
        impl<S> From<S> for #q<S, #none> {
            fn from(s: S) -> Self { Self(s) }
        }
        impl From<#q<f64, #none>> for f64 {
            fn from(s: #q<f64, #none>) -> f64 { s.0 }
        }
        impl ::core::ops::Add<f64> for #q<f64, #none> { type Output = Self; fn add(self, o: f64) -> Self { Self(self.0 + o) } }
        impl ::core::ops::Sub<f64> for #q<f64, #none> { type Output = Self; fn sub(self, o: f64) -> Self { Self(self.0 - o) } }
        impl ::core::ops::Add<#q<f64, #none>> for f64 { type Output = #q<f64, #none>; fn add(self, o: #q<f64, #none>) -> #q<f64, #none> { #q(self + o.0) } }
        impl ::core::ops::Sub<#q<f64, #none>> for f64 { type Output = #q<f64, #none>; fn sub(self, o: #q<f64, #none>) -> #q<f64, #none> { #q(self - o.0) } }
        impl ::core::ops::AddAssign<f64> for #q<f64, #none> { fn add_assign(&mut self, o: f64) { self.0 += o; } }
        impl ::core::ops::SubAssign<f64> for #q<f64, #none> { fn sub_assign(&mut self, o: f64) { self.0 -= o; } }
        impl ::core::cmp::PartialEq<f64> for #q<f64, #none> { fn eq(&self, o: &f64) -> bool { self.0 == *o } }
        impl ::core::cmp::PartialOrd<f64> for #q<f64, #none> { fn partial_cmp(&self, o: &f64) -> Option<::core::cmp::Ordering> { self.0.partial_cmp(o) } }

        impl<S: ::core::fmt::Debug, const D: #dimension> ::core::fmt::Debug for #q<S, D> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                self.0.fmt(f)?;
                let (sym, _) = __diman_support::base_symbol(D);
                if !sym.is_empty() { write!(f, " {}", sym)?; }
                Ok(())
            }
        }
        impl<S: ::core::fmt::Display, const D: #dimension> ::core::fmt::Display for #q<S, D> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                self.0.fmt(f)?;
                let (sym, _) = __diman_support::base_symbol(D);
                if !sym.is_empty() { write!(f, " {}", sym)?; }
                Ok(())
            }
        }
        impl<S: ::core::fmt::LowerExp, const D: #dimension> ::core::fmt::LowerExp for #q<S, D> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { self.0.fmt(f) }
        }
        impl<const D: #dimension> ::serde::Serialize for #q<f64, D> {
            fn serialize<S: ::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> {
                if D == #dimension::none() { return s.serialize_f64(self.0); }
                let (sym, f) = __diman_support::base_symbol(D);
                let _ = f;
                s.serialize_str(&format!("{:?} {}", self.0 / f, sym))
            }
        }
        impl<'de, const D: #dimension> ::serde::Deserialize<'de> for #q<f64, D> {
            fn deserialize<De: ::serde::Deserializer<'de>>(d: De) -> ::core::result::Result<Self, De::Error> {
                struct V<const D: #dimension>;
                impl<'de, const D: #dimension> ::serde::de::Visitor<'de> for V<D> {
                    type Value = #q<f64, D>;
                    fn expecting(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "a quantity") }
                    fn visit_str<E: ::serde::de::Error>(self, s: &str) -> ::core::result::Result<Self::Value, E> {
                        __diman_support::parse_f64(s, D).map(#q).map_err(E::custom)
                    }
                    fn visit_f64<E: ::serde::de::Error>(self, x: f64) -> ::core::result::Result<Self::Value, E> {
                        if D == #dimension::none() { Ok(#q(x)) } else { Err(E::custom("quantity without unit")) }
                    }
                    fn visit_i64<E: ::serde::de::Error>(self, x: i64) -> ::core::result::Result<Self::Value, E> { self.visit_f64(x as f64) }
                    fn visit_u64<E: ::serde::de::Error>(self, x: u64) -> ::core::result::Result<Self::Value, E> { self.visit_f64(x as f64) }
                }
                d.deserialize_any(V::<D>)
            }
        }
        unsafe impl<const D: #dimension> ::mpi::traits::Equivalence for #q<f64, D> {
            type Out = <f64 as ::mpi::traits::Equivalence>::Out;
            fn equivalent_datatype() -> Self::Out { <f64 as ::mpi::traits::Equivalence>::equivalent_datatype() }
        }
        unsafe impl<const D: #dimension> ::hdf5::H5Type for #q<f64, D> {
            fn type_descriptor() -> ::hdf5::types::TypeDescriptor { <f64 as ::hdf5::H5Type>::type_descriptor() }
        }
        #vec2
        #vec3
    }
    .into()
}
