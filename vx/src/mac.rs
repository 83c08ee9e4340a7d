//! Expansion of the simple macro_rules! that generate operator impls: arms are
//! told apart by their number of comma-separated arguments.
use proc_macro2::{TokenStream, TokenTree};
use std::collections::HashMap;

fn commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
	let mut out = vec![Vec::new()];
	let mut depth = 0i32;
	let mut prev = ' ';
	for t in ts {
		if let TokenTree::Punct(p) = &t {
			match p.as_char() {
				'<' => depth += 1,
				'>' if prev != '-' && prev != '=' => depth -= 1,
				',' if depth == 0 => {
					out.push(Vec::new());
					prev = ',';
					continue;
				}
				_ => {}
			}
			prev = p.as_char();
		} else {
			prev = ' ';
		}
		out.last_mut().unwrap().push(t);
	}
	if out.last().unwrap().is_empty() {
		out.pop();
	}
	out
}

fn subst(ts: TokenStream, b: &HashMap<String, Vec<TokenTree>>) -> TokenStream {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out: Vec<TokenTree> = Vec::new();
	let mut i = 0;
	while i < v.len() {
		if let (TokenTree::Punct(p), Some(TokenTree::Ident(n))) = (&v[i], v.get(i + 1)) {
			if p.as_char() == '$' {
				if let Some(r) = b.get(&n.to_string()) {
					out.extend(r.iter().cloned());
					i += 2;
					continue;
				}
			}
		}
		match &v[i] {
			TokenTree::Group(g) => {
				let mut h = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), b));
				h.set_span(g.span());
				out.push(TokenTree::Group(h));
			}
			t => out.push(t.clone()),
		}
		i += 1;
	}
	out.into_iter().collect()
}

struct Arm {
	params: Vec<String>,
	body: TokenStream,
}

fn arms(def: TokenStream) -> Vec<Arm> {
	// (pattern) => { body };
	let v: Vec<TokenTree> = def.into_iter().collect();
	let mut out = Vec::new();
	let mut i = 0;
	while i + 3 < v.len() + 0 || i + 3 == v.len() {
		if let (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) = (v.get(i), v.get(i + 3)) {
			let mut ok = true;
			let params = commas(p.stream())
				.into_iter()
				.map(|c| match (c.get(0), c.get(1)) {
					(Some(TokenTree::Punct(d)), Some(TokenTree::Ident(n))) if d.as_char() == '$' => n.to_string(),
					_ => {
						ok = false;
						String::new()
					}
				})
				.collect();
			if ok {
				out.push(Arm { params, body: b.stream() });
			}
			i += 4;
			if let Some(TokenTree::Punct(p)) = v.get(i) {
				if p.as_char() == ';' {
					i += 1;
				}
			}
		} else {
			break;
		}
	}
	out
}

/// Items of the file with those macro invocations replaced.
pub fn expand(items: Vec<syn::Item>) -> Vec<syn::Item> {
	let mut defs: HashMap<String, Vec<Arm>> = HashMap::new();
	let mut out = Vec::new();
	let mut todo: std::collections::VecDeque<(syn::Item, usize)> = items.into_iter().map(|i| (i, 0)).collect();
	while let Some((it, depth)) = todo.pop_front() {
		if let syn::Item::Macro(m) = &it {
			if m.mac.path.is_ident("macro_rules") {
				if let Some(id) = &m.ident {
					defs.insert(id.to_string(), arms(m.mac.tokens.clone()));
				}
			} else if let Some(id) = m.mac.path.get_ident() {
				if let (Some(ar), true) = (defs.get(&id.to_string()), depth < 8) {
					let args = commas(m.mac.tokens.clone());
					if let Some(arm) = ar.iter().find(|a| a.params.len() == args.len()) {
						let b: HashMap<String, Vec<TokenTree>> =
							arm.params.iter().cloned().zip(args.into_iter()).collect();
						if let Ok(f) = syn::parse2::<syn::File>(subst(arm.body.clone(), &b)) {
							for i in f.items.into_iter().rev() {
								todo.push_front((i, depth + 1));
							}
							continue;
						}
					}
				}
			}
		}
		out.push(it);
	}
	out
}
