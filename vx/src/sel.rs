//! Finding the items of a source file.
use quote::ToTokens;
use syn::*;

pub struct Found {
	pub sig: Signature,
	pub block: Block,
	pub lines: (usize, usize),
}

pub fn norm(s: &str) -> String {
	s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn ty_name(t: &Type) -> String {
	match t {
		Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
		t => norm(&t.to_token_stream().to_string()),
	}
}

fn path_name(p: &Path) -> String {
	p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn cfg_test(attrs: &[Attribute]) -> bool {
	attrs.iter().any(|a| a.path().is_ident("test") || norm(&a.to_token_stream().to_string()).contains("cfg(test)"))
}

pub fn items(file: &str) -> std::result::Result<Vec<Item>, String> {
	let s = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file, e))?;
	let f = parse_file(&s).map_err(|e| format!("{}: {}", file, e))?;
	let mut out = Vec::new();
	fn flat(v: Vec<Item>, out: &mut Vec<Item>) {
		for i in v {
			match i {
				Item::Mod(m) if !cfg_test(&m.attrs) && m.content.is_some() => flat(m.content.unwrap().1, out),
				i => out.push(i),
			}
		}
	}
	flat(f.items, &mut out);
	Ok(crate::mac::expand(out))
}

fn span(b: &Block) -> (usize, usize) {
	use syn::spanned::Spanned;
	let s = b.span();
	(s.start().line, s.end().line)
}

/// `imp`: name of the type (or of the trait, for its default methods), `tr`:
/// trait of the impl with arguments or "", `args`: text the impl header must
/// contain, `name`: function, `outer::inner` for a nested one.
pub fn find_fn(items: &[Item], imp: &str, tr: &str, args: &str, name: &str) -> std::result::Result<Found, String> {
	let (outer, inner) = match name.split_once("::") {
		Some((a, b)) => (a, Some(b)),
		None => (name, None),
	};
	let mut hits: Vec<(Signature, Block)> = Vec::new();
	for it in items {
		match it {
			Item::Fn(f) if imp.is_empty() && f.sig.ident == outer && !cfg_test(&f.attrs) => {
				hits.push((f.sig.clone(), (*f.block).clone()))
			}
			Item::Impl(i) if !imp.is_empty() => {
				if ty_name(&i.self_ty) != imp && norm(&i.self_ty.to_token_stream().to_string()) != norm(imp) {
					continue;
				}
				match &i.trait_ {
					None if !tr.is_empty() => continue,
					Some((_, p, _)) => {
						if tr.is_empty() || (path_name(p) != tr && norm(&p.to_token_stream().to_string()) != norm(tr)) {
							continue;
						}
					}
					None => {}
				}
				let mut head = i.clone();
				head.items.clear();
				if !args.is_empty() && !norm(&head.to_token_stream().to_string()).contains(&norm(args)) {
					continue;
				}
				for x in &i.items {
					if let ImplItem::Fn(f) = x {
						if f.sig.ident == outer {
							hits.push((f.sig.clone(), f.block.clone()));
						}
					}
				}
			}
			Item::Trait(t) if !imp.is_empty() && tr == "default" && t.ident == imp => {
				for x in &t.items {
					if let TraitItem::Fn(f) = x {
						if f.sig.ident == outer {
							if let Some(b) = &f.default {
								hits.push((f.sig.clone(), b.clone()));
							}
						}
					}
				}
			}
			_ => {}
		}
	}
	if hits.is_empty() {
		return Err(format!("no function {} in {} {}", name, imp, tr));
	}
	if hits.len() > 1 {
		return Err(format!("{} functions {} in {} {}", hits.len(), name, imp, tr));
	}
	let (mut sig, mut block) = hits.pop().unwrap();
	let inner_of = |b: &Block, n: &str| -> Option<(Signature, Block)> {
		b.stmts.iter().find_map(|s| match s {
			Stmt::Item(Item::Fn(f)) if f.sig.ident == n => Some((f.sig.clone(), (*f.block).clone())),
			_ => None,
		})
	};
	if let Some(n) = inner {
		let (s, b) = inner_of(&block, n).ok_or_else(|| format!("no function {} in {}", n, outer))?;
		sig = s;
		block = b;
	}
	// nested functions are extracted on their own
	block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Fn(_))));
	let lines = span(&block);
	Ok(Found { sig, block, lines })
}

pub fn find_item(items: &[Item], name: &str) -> std::result::Result<Item, String> {
	for it in items {
		let id = match it {
			Item::Struct(s) => &s.ident,
			Item::Enum(s) => &s.ident,
			Item::Const(s) => &s.ident,
			Item::Static(s) => &s.ident,
			_ => continue,
		};
		if id == name {
			return Ok(it.clone());
		}
	}
	Err(format!("no item {}", name))
}
