//! Stand-in for Verus' `verus!` macro (the real one is not available offline): leaves the executable code as it is
//! and drops the specification syntax (requires/ensures/by, named return values, spec and proof functions,
//! verifier attributes, proof-only assertions).
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn ident(t: Option<&TokenTree>) -> String { match t { Some(TokenTree::Ident(i)) => i.to_string(), _ => String::new() } }
fn punct(t: Option<&TokenTree>) -> char { match t { Some(TokenTree::Punct(p)) => p.as_char(), _ => ' ' } }
fn group(t: Option<&TokenTree>, d: Delimiter) -> Option<Group> { match t { Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.clone()), _ => None } }

fn strip(ts: TokenStream, body: bool) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        // #[verifier::...]
        if punct(v.get(i)) == '#' {
            if let Some(g) = group(v.get(i + 1), Delimiter::Bracket) {
                let first = g.stream().into_iter().next();
                if ident(first.as_ref()) == "verifier" { i += 2; continue; }
            }
        }
        let w = ident(v.get(i));
        // spec and proof functions: everything back to the end of the previous item goes
        if (w == "spec" || w == "proof") && ident(v.get(i + 1)) == "fn" {
            while let Some(l) = ident(out.last()).into() {
                let l: String = l;
                if l == "pub" || l == "open" || l == "closed" { out.pop(); } else { break; }
            }
            while i < v.len() && group(v.get(i), Delimiter::Brace).is_none() { i += 1; }
            i += 1;
            continue;
        }
        if body && w == "proof" && group(v.get(i + 1), Delimiter::Brace).is_some() { i += 2; continue; }
        if body && w == "assert" && group(v.get(i + 1), Delimiter::Parenthesis).is_some() {
            i += 2;
            while i < v.len() && punct(v.get(i)) != ';' { i += 1; }
            i += 1;
            continue;
        }
        if body && (w == "invariant" || w == "decreases" || w == "invariant_except_break") {
            while i < v.len() && group(v.get(i), Delimiter::Brace).is_none() { i += 1; }
            continue;
        }
        if w == "fn" && !ident(v.get(i + 1)).is_empty() {
            while i < v.len() && group(v.get(i), Delimiter::Parenthesis).is_none() { out.push(v[i].clone()); i += 1; }
            out.push(v[i].clone());
            i += 1;
            if punct(v.get(i)) == '-' && punct(v.get(i + 1)) == '>' {
                out.push(v[i].clone());
                out.push(v[i + 1].clone());
                i += 2;
                let named = group(v.get(i), Delimiter::Parenthesis).and_then(|g| {
                    let t: Vec<TokenTree> = g.stream().into_iter().collect();
                    if !ident(t.first()).is_empty() && punct(t.get(1)) == ':' && punct(t.get(2)) != ':' { Some(t) } else { None }
                });
                if let Some(t) = named { out.extend(t.into_iter().skip(2)); i += 1; }
                else {
                    while i < v.len() && group(v.get(i), Delimiter::Brace).is_none() && !["requires", "ensures", "by", "where"].contains(&ident(v.get(i)).as_str()) { out.push(v[i].clone()); i += 1; }
                }
            }
            while i < v.len() && group(v.get(i), Delimiter::Brace).is_none() { i += 1; }
            if let Some(g) = group(v.get(i), Delimiter::Brace) {
                let mut n = Group::new(Delimiter::Brace, strip(g.stream(), true));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
                i += 1;
            }
            continue;
        }
        if let Some(TokenTree::Group(g)) = v.get(i) {
            let mut n = Group::new(g.delimiter(), strip(g.stream(), body));
            n.set_span(g.span());
            out.push(TokenTree::Group(n));
        } else {
            out.push(v[i].clone());
        }
        i += 1;
    }
    out.into_iter().collect()
}

#[proc_macro]
pub fn verus(ts: TokenStream) -> TokenStream { strip(ts, false) }
