//! Stand-in for the part of rust-peg's grammar language that redscript uses: ordered choice, sequences with labels and
//! actions, repetition, lookahead, slices, rules with parameters, quiet!, expected!, position! and precedence!.
use proc_macro2::{Ident, Literal, TokenStream, TokenTree};
use quote::{format_ident, quote};
use syn::ext::IdentExt;
use syn::parse::{Parse, ParseStream, Parser};
use syn::{braced, bracketed, parenthesized, token, LitStr, Result, Token, Type};

#[proc_macro]
pub fn parser(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    match syn::parse::<Grammar>(input) {
        Ok(g) => g.code().into(),
        Err(e) => e.to_compile_error().into(),
    }
}

struct Grammar {
    vis: syn::Visibility,
    name: Ident,
    params: Vec<(Ident, Type)>,
    uses: Vec<syn::ItemUse>,
    rules: Vec<Rule>,
}

struct Rule {
    public: bool,
    name: Ident,
    generics: Vec<Ident>,
    params: Vec<(Ident, ParamType)>,
    ret: Option<TokenStream>,
    body: Expr,
}

enum ParamType {
    Rule(Type),
    Plain(Type),
}

enum Expr {
    Choice(Vec<Expr>),
    Seq(Vec<(Option<Ident>, Expr)>, Option<Action>),
    Lit(LitStr),
    Class(TokenStream, String),
    Call(Ident, Vec<Arg>),
    Method(Ident, TokenStream),
    Optional(Box<Expr>),
    Repeat(Box<Expr>, Option<Box<Expr>>, Option<usize>, Option<usize>),
    Slice(Box<Expr>),
    Not(Box<Expr>),
    And(Box<Expr>),
    Quiet(Box<Expr>),
    Expected(LitStr),
    Position,
    Marker(bool),
    Precedence(Vec<Vec<Op>>),
}

struct Op {
    elements: Vec<(Option<Ident>, Expr)>,
    action: Action,
}

struct Action {
    conditional: bool,
    code: TokenStream,
}

enum Arg {
    Rule(Expr),
    Plain(TokenStream),
}

fn ident(input: ParseStream<'_>) -> Result<Ident> {
    if input.peek(Token![_]) {
        let t: Token![_] = input.parse()?;
        return Ok(Ident::new("_", t.span));
    }
    Ident::parse_any(input)
}

impl Parse for Grammar {
    fn parse(input: ParseStream<'_>) -> Result<Self> {
        let vis = input.parse()?;
        let kw = Ident::parse_any(input)?;
        if kw != "grammar" {
            return Err(syn::Error::new(kw.span(), "expected `grammar`"));
        }
        let name = input.parse()?;
        let content;
        parenthesized!(content in input);
        let mut params = vec![];
        while !content.is_empty() {
            let id = content.parse()?;
            content.parse::<Token![:]>()?;
            params.push((id, content.parse()?));
            if !content.is_empty() {
                content.parse::<Token![,]>()?;
            }
        }
        input.parse::<Token![for]>()?;
        let ty: Type = input.parse()?;
        if quote!(#ty).to_string() != "str" {
            return Err(input.error("only grammars for str are supported"));
        }
        let body;
        braced!(body in input);
        let mut uses = vec![];
        while body.peek(Token![use]) {
            uses.push(body.parse()?);
        }
        let mut rules = vec![];
        while !body.is_empty() {
            rules.push(body.parse()?);
        }
        Ok(Self { vis, name, params, uses, rules })
    }
}

fn rule_starts(input: ParseStream<'_>) -> bool {
    let f = input.fork();
    let _ = f.parse::<syn::Visibility>();
    match Ident::parse_any(&f) {
        Ok(id) if id == "rule" => ident(&f).is_ok() && (f.peek(token::Paren) || f.peek(Token![<])),
        _ => false,
    }
}

impl Parse for Rule {
    fn parse(input: ParseStream<'_>) -> Result<Self> {
        let vis: syn::Visibility = input.parse()?;
        let public = !matches!(vis, syn::Visibility::Inherited);
        let kw = Ident::parse_any(input)?;
        if kw != "rule" {
            return Err(syn::Error::new(kw.span(), "expected `rule`"));
        }
        let name = ident(input)?;
        let mut generics = vec![];
        if input.peek(Token![<]) {
            input.parse::<Token![<]>()?;
            while !input.peek(Token![>]) {
                generics.push(input.parse()?);
                if input.peek(Token![,]) {
                    input.parse::<Token![,]>()?;
                }
            }
            input.parse::<Token![>]>()?;
        }
        let content;
        parenthesized!(content in input);
        let mut params = vec![];
        while !content.is_empty() {
            let id: Ident = content.parse()?;
            content.parse::<Token![:]>()?;
            let fork = content.fork();
            let ty = match Ident::parse_any(&fork) {
                Ok(k) if k == "rule" => {
                    Ident::parse_any(&content)?;
                    content.parse::<Token![<]>()?;
                    let t: Type = content.parse()?;
                    content.parse::<Token![>]>()?;
                    ParamType::Rule(t)
                }
                _ => ParamType::Plain(content.parse()?),
            };
            params.push((id, ty));
            if !content.is_empty() {
                content.parse::<Token![,]>()?;
            }
        }
        let ret = if input.peek(Token![->]) {
            input.parse::<Token![->]>()?;
            let t: Type = input.parse()?;
            Some(quote!(#t))
        } else {
            None
        };
        input.parse::<Token![=]>()?;
        let body = choice(input)?;
        if input.peek(Token![;]) {
            input.parse::<Token![;]>()?;
        }
        Ok(Self { public, name, generics, params, ret, body })
    }
}

fn choice(input: ParseStream<'_>) -> Result<Expr> {
    let mut alts = vec![sequence(input)?];
    while input.peek(Token![/]) {
        input.parse::<Token![/]>()?;
        alts.push(sequence(input)?);
    }
    Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Expr::Choice(alts) })
}

fn action(input: ParseStream<'_>) -> Result<Action> {
    let code;
    braced!(code in input);
    let conditional = code.peek(Token![?]);
    if conditional {
        code.parse::<Token![?]>()?;
    }
    Ok(Action { conditional, code: code.parse()? })
}

fn elements(input: ParseStream<'_>) -> Result<Vec<(Option<Ident>, Expr)>> {
    let mut out = vec![];
    while !(input.is_empty()
        || input.peek(token::Brace)
        || input.peek(Token![/])
        || input.peek(Token![;])
        || input.peek(Token![-])
        || rule_starts(input))
    {
        let fork = input.fork();
        let labeled = ident(&fork).is_ok() && fork.peek(Token![:]) && !fork.peek(Token![::]);
        let label = if labeled {
            let id = ident(input)?;
            input.parse::<Token![:]>()?;
            Some(id)
        } else {
            None
        };
        out.push((label, prefix(input)?));
    }
    Ok(out)
}

fn sequence(input: ParseStream<'_>) -> Result<Expr> {
    let mut els = elements(input)?;
    if input.peek(token::Brace) {
        let a = action(input)?;
        return Ok(Expr::Seq(els, Some(a)));
    }
    if els.len() == 1 && els[0].0.is_none() {
        return Ok(els.pop().unwrap().1);
    }
    Ok(Expr::Seq(els, None))
}

fn prefix(input: ParseStream<'_>) -> Result<Expr> {
    if input.peek(Token![$]) {
        input.parse::<Token![$]>()?;
        // binds tighter than the repetition that follows
        let inner = primary(input)?;
        return suffix(input, Expr::Slice(Box::new(inner)));
    }
    if input.peek(Token![!]) {
        input.parse::<Token![!]>()?;
        let inner = primary(input)?;
        return Ok(Expr::Not(Box::new(suffix(input, inner)?)));
    }
    if input.peek(Token![&]) {
        input.parse::<Token![&]>()?;
        let inner = primary(input)?;
        return Ok(Expr::And(Box::new(suffix(input, inner)?)));
    }
    let inner = primary(input)?;
    suffix(input, inner)
}

fn suffix(input: ParseStream<'_>, e: Expr) -> Result<Expr> {
    if input.peek(Token![?]) {
        input.parse::<Token![?]>()?;
        return Ok(Expr::Optional(Box::new(e)));
    }
    if input.peek(Token![+]) {
        input.parse::<Token![+]>()?;
        let sep = if input.peek(Token![+]) {
            input.parse::<Token![+]>()?;
            Some(Box::new(primary(input)?))
        } else {
            None
        };
        return Ok(Expr::Repeat(Box::new(e), sep, Some(1), None));
    }
    if input.peek(Token![*]) {
        input.parse::<Token![*]>()?;
        let sep = input.peek(Token![*]);
        if sep {
            input.parse::<Token![*]>()?;
        }
        let (mut lo, mut hi) = (None, None);
        if input.peek(Token![<]) {
            input.parse::<Token![<]>()?;
            let n: syn::LitInt = input.parse()?;
            lo = Some(n.base10_parse()?);
            hi = lo;
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
                hi = None;
                if !input.peek(Token![>]) {
                    let n: syn::LitInt = input.parse()?;
                    hi = Some(n.base10_parse()?);
                }
            }
            input.parse::<Token![>]>()?;
        }
        let sep = if sep { Some(Box::new(primary(input)?)) } else { None };
        return Ok(Expr::Repeat(Box::new(e), sep, lo, hi));
    }
    Ok(e)
}

fn primary(input: ParseStream<'_>) -> Result<Expr> {
    if input.peek(Token![@]) {
        input.parse::<Token![@]>()?;
        return Ok(Expr::Marker(false));
    }
    if input.peek(LitStr) {
        return Ok(Expr::Lit(input.parse()?));
    }
    if input.peek(token::Bracket) {
        let content;
        bracketed!(content in input);
        let pat: TokenStream = content.parse()?;
        let text = format!("[{pat}]");
        return Ok(Expr::Class(pat, text));
    }
    if input.peek(token::Paren) {
        let content;
        parenthesized!(content in input);
        if content.peek(Token![@]) {
            content.parse::<Token![@]>()?;
            return Ok(Expr::Marker(true));
        }
        return choice(&content);
    }
    if input.peek(Token![#]) {
        input.parse::<Token![#]>()?;
        input.parse::<Token![#]>()?;
        let name = input.parse()?;
        let content;
        parenthesized!(content in input);
        return Ok(Expr::Method(name, content.parse()?));
    }
    let name = ident(input)?;
    if input.peek(Token![!]) && (input.peek2(token::Brace) || input.peek2(token::Paren)) {
        input.parse::<Token![!]>()?;
        let tree: TokenTree = input.parse()?;
        let TokenTree::Group(g) = tree else { return Err(input.error("expected a group")) };
        let inner = g.stream();
        return match name.to_string().as_str() {
            "quiet" => Ok(Expr::Quiet(Box::new(choice.parse2(inner)?))),
            "expected" => Ok(Expr::Expected(syn::parse2(inner)?)),
            "position" => Ok(Expr::Position),
            "precedence" => precedence.parse2(inner).map(Expr::Precedence),
            _ => Err(syn::Error::new(name.span(), "unsupported macro")),
        };
    }
    if name == "_" && !input.peek(token::Paren) {
        return Ok(Expr::Call(name, vec![]));
    }
    let content;
    parenthesized!(content in input);
    let mut args = vec![];
    while !content.is_empty() {
        if content.peek(Token![<]) {
            content.parse::<Token![<]>()?;
            // everything up to the closing angle bracket at this level
            let mut inner: Vec<TokenTree> = vec![];
            while !(content.peek(Token![>]) && (content.peek2(Token![,]) || is_last(&content))) {
                inner.push(content.parse()?);
            }
            content.parse::<Token![>]>()?;
            args.push(Arg::Rule(choice.parse2(inner.into_iter().collect())?));
        } else {
            let e: syn::Expr = content.parse()?;
            args.push(Arg::Plain(quote!(#e)));
        }
        if !content.is_empty() {
            content.parse::<Token![,]>()?;
        }
    }
    Ok(Expr::Call(name, args))
}

fn is_last(input: ParseStream<'_>) -> bool {
    let f = input.fork();
    f.parse::<TokenTree>().is_ok() && f.is_empty()
}

fn precedence(input: ParseStream<'_>) -> Result<Vec<Vec<Op>>> {
    let mut levels = vec![vec![]];
    while !input.is_empty() {
        if input.peek(Token![-]) {
            input.parse::<Token![-]>()?;
            input.parse::<Token![-]>()?;
            levels.push(vec![]);
            continue;
        }
        let elements = elements(input)?;
        let action = action(input)?;
        levels.last_mut().unwrap().push(Op { elements, action });
    }
    Ok(levels)
}

struct Ctx<'a> {
    grammar: &'a Grammar,
    rule: &'a Rule,
}

impl Grammar {
    fn code(&self) -> TokenStream {
        let (vis, name, uses) = (&self.vis, &self.name, &self.uses);
        let rules = self.rules.iter().map(|r| self.rule(r));
        quote! {
            #vis mod #name {
                #![allow(unused, non_snake_case, clippy::all)]
                use super::*;
                use ::peg::RuleResult::{Failed as __Failed, Matched as __Matched};
                type __R<T> = ::peg::RuleResult<T>;
                type __E = ::peg::error::ErrorState;
                #(#uses)*
                #(#rules)*
            }
        }
    }

    fn params(&self) -> (Vec<TokenStream>, Vec<TokenStream>) {
        let decl = self.params.iter().map(|(n, t)| quote!(#n: #t)).collect();
        let pass = self.params.iter().map(|(n, _)| quote!(#n)).collect();
        (decl, pass)
    }

    fn rule(&self, r: &Rule) -> TokenStream {
        let ctx = Ctx { grammar: self, rule: r };
        let body = if r.ret.is_some() { ctx.expr(&r.body) } else { ctx.unused(&r.body) };
        let f = format_ident!("__parse_{}", r.name.to_string());
        let (decl, pass) = self.params();
        let ret = r.ret.clone().unwrap_or(quote!(()));
        let generics = &r.generics;
        let params = r.params.iter().map(|(n, t)| match t {
            ParamType::Rule(t) => quote!(#n: &dyn Fn(&'input str, &mut __E, usize) -> __R<#t>),
            ParamType::Plain(t) => quote!(#n: #t),
        });
        let public = if r.public {
            let name = &r.name;
            quote! {
                pub fn #name<'input>(__input: &'input str #(, #decl)*) -> Result<#ret, ::peg::error::ParseError<::peg::str::LineCol>> {
                    ::peg::error::run(__input, |__err| #f(__input, __err, 0 #(, #pass)*))
                }
            }
        } else {
            quote!()
        };
        quote! {
            #public
            fn #f<'input #(, #generics)*>(__input: &'input str, __err: &mut __E, __pos: usize #(, #decl)* #(, #params)*) -> __R<#ret> {
                #body
            }
        }
    }
}

impl Ctx<'_> {
    /// the value is not used: alternatives may have values of different types
    fn unused(&self, e: &Expr) -> TokenStream {
        match e {
            Expr::Choice(alts) => {
                let mut out = quote!(__Failed);
                for alt in alts.iter().rev() {
                    let code = self.unused(alt);
                    out = quote!(match #code { __Matched(__p, ()) => __Matched(__p, ()), __Failed => #out });
                }
                out
            }
            Expr::Quiet(e) => {
                let code = self.unused(e);
                quote!({
                    __err.quiet += 1;
                    let __r = #code;
                    __err.quiet -= 1;
                    __r
                })
            }
            Expr::Repeat(e, sep, lo, hi) => self.repeat(self.unused(e), sep, lo, hi, true),
            Expr::Optional(e) => {
                let code = self.unused(e);
                quote!(match #code { __Matched(__p, _) => __Matched(__p, ()), __Failed => __Matched(__pos, ()) })
            }
            Expr::Expected(s) => quote!(__err.fail::<()>(__pos, #s)),
            Expr::Seq(_, Some(_)) | Expr::Class(..) | Expr::Call(..) | Expr::Slice(_) | Expr::And(_) | Expr::Position | Expr::Precedence(_) => {
                let code = self.expr(e);
                quote!(match #code { __Matched(__p, _) => __Matched(__p, ()), __Failed => __Failed })
            }
            Expr::Seq(_, None) | Expr::Lit(_) | Expr::Method(..) | Expr::Not(_) | Expr::Marker(_) => self.expr(e),
        }
    }

    fn repeat(&self, code: TokenStream, sep: &Option<Box<Expr>>, lo: &Option<usize>, hi: &Option<usize>, unused: bool) -> TokenStream {
        let sep = sep.as_ref().map(|s| {
            let s = self.unused(s);
            quote!(let __pos = if __vec.is_empty() { __pos } else {
                match #s { __Matched(__p, ()) => __p, __Failed => break }
            };)
        });
        let stop = hi.map(|n| quote!(if __vec.len() >= #n { break; }));
        let min = lo.unwrap_or(0);
        let value = if unused { quote!(()) } else { quote!(__vec) };
        quote!({
            let mut __at = __pos;
            let mut __vec = vec![];
            loop {
                #stop
                let __pos = __at;
                #sep
                match #code {
                    __Matched(__p, __v) => { __at = __p; __vec.push(__v); }
                    __Failed => break,
                }
            }
            if __vec.len() >= #min { __Matched(__at, #value) } else { __Failed }
        })
    }

    fn expr(&self, e: &Expr) -> TokenStream {
        match e {
            Expr::Choice(alts) => {
                let mut out = quote!(__Failed);
                for (k, alt) in alts.iter().enumerate().rev() {
                    let code = self.expr(alt);
                    out = if k + 1 == alts.len() {
                        code
                    } else {
                        quote!(match #code { __Matched(__p, __v) => __Matched(__p, __v), __Failed => #out })
                    };
                }
                out
            }
            Expr::Seq(els, action) => self.seq(els, match action {
                Some(a) => self.action(a),
                None => quote!(__Matched(__pos, ())),
            }),
            Expr::Lit(s) => {
                let shown = Literal::string(&format!("{:?}", s.value()));
                quote!(match ::peg::ParseLiteral::parse_string_literal(__input, __pos, #s) {
                    __Matched(__p, _) => __Matched(__p, ()),
                    __Failed => __err.fail(__pos, #shown),
                })
            }
            Expr::Class(pat, text) => {
                quote!(match __input[__pos..].chars().next() {
                    Some(__c) => match __c {
                        #pat => __Matched(__pos + __c.len_utf8(), __c),
                        #[allow(unreachable_patterns)]
                        _ => __err.fail(__pos, #text),
                    },
                    None => __err.fail(__pos, #text),
                })
            }
            Expr::Call(name, args) => {
                let (_, pass) = self.grammar.params();
                if self.rule.params.iter().any(|(n, t)| n == name && matches!(t, ParamType::Rule(_))) {
                    return quote!(#name(__input, __err, __pos));
                }
                let f = format_ident!("__parse_{}", name.to_string());
                let args = args.iter().map(|a| match a {
                    Arg::Plain(t) => t.clone(),
                    Arg::Rule(e) => {
                        let code = self.expr(e);
                        quote!(&|__input: &'input str, __err: &mut __E, __pos: usize| #code)
                    }
                });
                quote!(#f(__input, __err, __pos #(, #pass)* #(, #args)*))
            }
            Expr::Method(name, args) => quote!(__input.#name(__pos, #args)),
            Expr::Optional(e) => {
                let code = self.expr(e);
                quote!(match #code { __Matched(__p, __v) => __Matched(__p, Some(__v)), __Failed => __Matched(__pos, None) })
            }
            Expr::Repeat(e, sep, lo, hi) => {
                self.repeat(self.expr(e), sep, lo, hi, false)
            }
            Expr::Slice(e) => {
                let code = self.unused(e);
                quote!(match #code { __Matched(__p, _) => __Matched(__p, &__input[__pos..__p]), __Failed => __Failed })
            }
            Expr::Not(e) => {
                let code = self.unused(e);
                quote!({
                    __err.quiet += 1;
                    let __r = #code;
                    __err.quiet -= 1;
                    match __r { __Matched(..) => __Failed, __Failed => __Matched(__pos, ()) }
                })
            }
            Expr::And(e) => {
                let code = self.expr(e);
                quote!({
                    __err.quiet += 1;
                    let __r = #code;
                    __err.quiet -= 1;
                    match __r { __Matched(_, __v) => __Matched(__pos, __v), __Failed => __Failed }
                })
            }
            Expr::Quiet(e) => {
                let code = self.expr(e);
                quote!({
                    __err.quiet += 1;
                    let __r = #code;
                    __err.quiet -= 1;
                    __r
                })
            }
            Expr::Expected(s) => quote!(__err.fail(__pos, #s)),
            Expr::Position => quote!(__Matched(__pos, __pos)),
            Expr::Marker(_) => quote!(compile_error!("@ outside precedence!")),
            Expr::Precedence(levels) => self.precedence(levels),
        }
    }

    fn action(&self, a: &Action) -> TokenStream {
        let code = &a.code;
        if a.conditional {
            quote!(match (|| { #code })() { Ok(__v) => __Matched(__pos, __v), Err(__m) => __err.fail(__pos, __m) })
        } else {
            quote!(__Matched(__pos, (|| { #code })()))
        }
    }

    fn seq(&self, els: &[(Option<Ident>, Expr)], last: TokenStream) -> TokenStream {
        let mut out = last;
        for (label, e) in els.iter().rev() {
            let (code, pat) = match label {
                Some(id) => (self.expr(e), quote!(#id)),
                None => (self.unused(e), quote!(_)),
            };
            out = quote!(match #code { __Matched(__pos, #pat) => { #out } __Failed => __Failed });
        }
        out
    }

    fn precedence(&self, levels: &[Vec<Op>]) -> TokenStream {
        let (decl, pass) = self.grammar.params();
        let ret = self.rule.ret.clone().unwrap_or(quote!(()));
        let mut pre = vec![];
        let mut post = vec![];
        for (prec, level) in levels.iter().enumerate() {
            let prec = prec as i32;
            let mut rules = vec![];
            for op in level {
                let marker = |e: Option<&(Option<Ident>, Expr)>| match e {
                    Some((l, Expr::Marker(assoc))) => Some((l.clone().unwrap_or_else(|| format_ident!("__unused")), *assoc)),
                    _ => None,
                };
                let left = marker(op.elements.first());
                let right = if op.elements.len() > 1 { marker(op.elements.last()) } else { None };
                let lo = usize::from(left.is_some());
                let hi = op.elements.len() - usize::from(right.is_some());
                let middle = &op.elements[lo..hi];
                let done = self.action(&op.action);
                let tail = match &right {
                    Some((r, assoc)) => {
                        let min = if *assoc { prec } else { prec + 1 };
                        quote!(match __infix(__input, __err, __pos #(, #pass)*, #min) {
                            __Matched(__pos, #r) => #done,
                            __Failed => __Failed,
                        })
                    }
                    None => done,
                };
                match left {
                    None => pre.push(self.seq(middle, quote!(#tail))),
                    Some((l, _)) => {
                        // the left operand is only taken once the rest has matched
                        let right_pat = right.as_ref().map(|(r, _)| quote!(#r));
                        let labels: Vec<TokenStream> = middle
                            .iter()
                            .filter_map(|(l, _)| l.as_ref().map(|l| quote!(#l)))
                            .chain(right_pat)
                            .collect();
                        let rest = match &right {
                            Some((r, assoc)) => {
                                let min = if *assoc { prec } else { prec + 1 };
                                quote!(match __infix(__input, __err, __pos #(, #pass)*, #min) {
                                    __Matched(__pos, #r) => __Matched(__pos, (#(#labels,)*)),
                                    __Failed => __Failed,
                                })
                            }
                            None => quote!(__Matched(__pos, (#(#labels,)*))),
                        };
                        let parse = self.seq(middle, rest);
                        let code = &op.action.code;
                        rules.push(quote! {
                            if let __Matched(__p, (#(#labels,)*)) = #parse {
                                let #l = __value;
                                __value = (|| { #code })();
                                __at = __p;
                                continue;
                            }
                        });
                    }
                }
            }
            if !rules.is_empty() {
                post.push(quote!(if #prec >= __min { #(#rules)* }));
            }
        }
        let mut first = quote!(__Failed);
        for p in pre.into_iter().rev() {
            first = quote!(match #p { __Matched(__p, __v) => __Matched(__p, __v), __Failed => #first });
        }
        quote!({
            fn __infix<'input>(__input: &'input str, __err: &mut __E, __pos: usize #(, #decl)*, __min: i32) -> __R<#ret> {
                let __first: __R<#ret> = #first;
                match __first {
                    __Failed => __Failed,
                    __Matched(__p, __v) => {
                        let mut __at = __p;
                        let mut __value = __v;
                        loop {
                            let __pos = __at;
                            #(#post)*
                            break __Matched(__at, __value);
                        }
                    }
                }
            }
            __infix(__input, __err, __pos #(, #pass)*, 0)
        })
    }
}

