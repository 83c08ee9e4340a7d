//! Rewriting of token sequences: `pattern => replacement`. `$x` matches one
//! token tree, `$$x` the rest of the group it stands in.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Rule {
	pat: Vec<TokenTree>,
	rep: Vec<TokenTree>,
}

pub fn lex(s: &str) -> Vec<TokenTree> {
	let ts: TokenStream = s.parse().unwrap_or_else(|e| panic!("cannot lex {:?}: {}", s, e));
	ts.into_iter().collect()
}

pub fn rule(s: &str) -> Rule {
	let (p, r) = s.split_once("=>>").unwrap_or_else(|| panic!("rule without =>>: {}", s));
	Rule { pat: lex(p), rep: lex(r) }
}

type Bind = HashMap<String, Vec<TokenTree>>;

fn meta(p: &[TokenTree]) -> Option<(bool, String, usize)> {
	let is = |t: &TokenTree| matches!(t, TokenTree::Punct(q) if q.as_char() == '$');
	if p.len() >= 2 && is(&p[0]) {
		if let TokenTree::Ident(i) = &p[1] {
			return Some((false, i.to_string(), 2));
		}
		if p.len() >= 3 && is(&p[1]) {
			if let TokenTree::Ident(i) = &p[2] {
				return Some((true, i.to_string(), 3));
			}
		}
	}
	None
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
	match (a, b) {
		(TokenTree::Ident(a), TokenTree::Ident(b)) => a == b,
		(TokenTree::Punct(a), TokenTree::Punct(b)) => a.as_char() == b.as_char(),
		(TokenTree::Literal(a), TokenTree::Literal(b)) => a.to_string() == b.to_string(),
		_ => false,
	}
}

/// matches a prefix of `s`, returns its length
fn mat(p: &[TokenTree], s: &[TokenTree], b: &mut Bind, whole: bool) -> Option<usize> {
	let (mut i, mut j) = (0, 0);
	while i < p.len() {
		if let Some((rest, name, n)) = meta(&p[i..]) {
			i += n;
			if rest {
				b.insert(name, s[j..].to_vec());
				j = s.len();
			} else {
				b.insert(name, vec![s.get(j)?.clone()]);
				j += 1;
			}
			continue;
		}
		match (&p[i], s.get(j)?) {
			(TokenTree::Group(g), TokenTree::Group(h)) => {
				if g.delimiter() != h.delimiter() {
					return None;
				}
				let gp: Vec<_> = g.stream().into_iter().collect();
				let hp: Vec<_> = h.stream().into_iter().collect();
				mat(&gp, &hp, b, true)?;
			}
			(x, y) if same(x, y) => {}
			_ => return None,
		}
		i += 1;
		j += 1;
	}
	if whole && j != s.len() {
		return None;
	}
	Some(j)
}

fn subst(r: &[TokenTree], b: &Bind) -> Vec<TokenTree> {
	let mut out = Vec::new();
	let mut i = 0;
	while i < r.len() {
		if let Some((_, name, n)) = meta(&r[i..]) {
			if let Some(v) = b.get(&name) {
				out.extend(v.iter().cloned());
				i += n;
				continue;
			}
		}
		match &r[i] {
			TokenTree::Group(g) => {
				let inner: Vec<_> = g.stream().into_iter().collect();
				out.push(TokenTree::Group(Group::new(g.delimiter(), subst(&inner, b).into_iter().collect())));
			}
			t => out.push(t.clone()),
		}
		i += 1;
	}
	out
}

pub fn apply1(ts: Vec<TokenTree>, r: &Rule) -> Vec<TokenTree> {
	let mut out = Vec::new();
	let mut i = 0;
	while i < ts.len() {
		let mut b = Bind::new();
		if let Some(n) = mat(&r.pat, &ts[i..], &mut b, false) {
			if n > 0 {
				for v in b.values_mut() {
					*v = apply1(std::mem::take(v), r);
				}
				out.extend(subst(&r.rep, &b));
				i += n;
				continue;
			}
		}
		match &ts[i] {
			TokenTree::Group(g) => {
				let inner: Vec<_> = g.stream().into_iter().collect();
				let d: Delimiter = g.delimiter();
				out.push(TokenTree::Group(Group::new(d, apply1(inner, r).into_iter().collect())));
			}
			t => out.push(t.clone()),
		}
		i += 1;
	}
	out
}

pub fn apply(ts: TokenStream, rules: &[Rule]) -> TokenStream {
	let mut v: Vec<TokenTree> = ts.into_iter().collect();
	for r in rules {
		v = apply1(v, r);
	}
	v.into_iter().collect()
}
