//! Rewriting of one function body and printing with its contract.
use crate::sel::norm;
use crate::unit::{FnDir, LoopDir, Unit};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct FnText {
	pub text: String,
	pub lost: Vec<String>,
	pub shape: Vec<String>,
}

// ---------------------------------------------------------------- printing

fn print(ts: TokenStream, texts: &[String], out: &mut String) {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let num = |g: &TokenTree| -> Option<usize> {
		if let TokenTree::Group(g) = g {
			g.stream().to_string().trim().parse().ok()
		} else {
			None
		}
	};
	let mark = |v: &[TokenTree], name: &str| -> Option<usize> {
		match (v.get(0), v.get(1), v.get(2)) {
			(Some(TokenTree::Ident(i)), Some(TokenTree::Punct(p)), Some(g)) if i == name && p.as_char() == '!' => num(g),
			_ => None,
		}
	};
	let mut i = 0;
	while i < v.len() {
		if let Some(k) = mark(&v[i..], "__vx") {
			out.push('\n');
			out.push_str(&texts[k]);
			out.push('\n');
			i += 3;
			// a statement macro may carry its semicolon
			if let Some(TokenTree::Punct(p)) = v.get(i) {
				if p.as_char() == ';' {
					i += 1;
				}
			}
			continue;
		}
		match &v[i] {
			TokenTree::Group(g) => {
				let (o, c) = match g.delimiter() {
					Delimiter::Brace => ("{", "}"),
					Delimiter::Parenthesis => ("(", ")"),
					Delimiter::Bracket => ("[", "]"),
					Delimiter::None => ("", ""),
				};
				let inner: Vec<TokenTree> = g.stream().into_iter().collect();
				let mut skip = 0;
				if let Some(k) = mark(&inner, "__vxs") {
					out.push('\n');
					out.push_str(&texts[k]);
					out.push('\n');
					skip = 3;
					if let Some(TokenTree::Punct(p)) = inner.get(3) {
						if p.as_char() == ';' {
							skip = 4;
						}
					}
				}
				out.push_str(o);
				if o == "{" && !inner.is_empty() {
					out.push('\n');
				}
				print(inner[skip..].iter().cloned().collect(), texts, out);
				out.push_str(c);
				if c == "}" {
					out.push('\n');
				} else {
					out.push(' ');
				}
			}
			TokenTree::Punct(p) => {
				out.push(p.as_char());
				if p.as_char() == ';' {
					out.push('\n');
				} else if p.spacing() == proc_macro2::Spacing::Alone {
					out.push(' ');
				}
			}
			t => {
				out.push_str(&t.to_string());
				out.push(' ');
			}
		}
		i += 1;
	}
}

pub fn show(ts: TokenStream, texts: &[String]) -> String {
	let mut s = String::new();
	print(ts, texts, &mut s);
	s
}

// ---------------------------------------------------------------- cleaning

struct Clean;
impl VisitMut for Clean {
	fn visit_type_mut(&mut self, t: &mut Type) {
		if let Type::Reference(r) = t {
			r.lifetime = None;
		}
		visit_mut::visit_type_mut(self, t);
	}
	fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
		let old = std::mem::take(&mut a.args);
		a.args = old.into_iter().filter(|x| !matches!(x, GenericArgument::Lifetime(l) if l.ident != "static")).collect();
		visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
	}
	fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
		visit_mut::visit_path_segment_mut(self, s);
		if let PathArguments::AngleBracketed(a) = &s.arguments {
			if a.args.is_empty() {
				s.arguments = PathArguments::None;
			}
		}
	}
}

fn lifetimes(g: &Generics) -> Generics {
	let mut o = Generics::default();
	for p in &g.params {
		if let GenericParam::Lifetime(l) = p {
			let l = &l.lifetime;
			o.params.push(parse_quote!(#l));
			o.lt_token = Some(Default::default());
			o.gt_token = Some(Default::default());
		}
	}
	o
}

/// Types and constants: attributes, visibility, bounds and where clauses go.
pub fn item(it: Item, rules: &[crate::rules::Rule], mode: &str) -> std::result::Result<String, String> {
	let strip = |a: &mut Vec<Attribute>| a.clear();
	let it = match it {
		Item::Struct(mut s) => {
			strip(&mut s.attrs);
			s.generics = lifetimes(&s.generics);
			s.vis = parse_quote!(pub);
			for f in s.fields.iter_mut() {
				strip(&mut f.attrs);
				f.vis = parse_quote!(pub);
			}
			Item::Struct(s)
		}
		Item::Enum(mut s) => {
			strip(&mut s.attrs);
			s.generics = Generics::default();
			// `mode`: type parameters to keep, without their bounds
			for g in mode.split(',').filter(|g| !g.is_empty()) {
				let g = format_ident!("{}", g);
				s.generics.params.push(parse_quote!(#g));
				s.generics.lt_token = Some(Default::default());
				s.generics.gt_token = Some(Default::default());
			}
			s.vis = parse_quote!(pub);
			for v in s.variants.iter_mut() {
				strip(&mut v.attrs);
				for f in v.fields.iter_mut() {
					strip(&mut f.attrs);
				}
			}
			Item::Enum(s)
		}
		Item::Const(mut c) => {
			strip(&mut c.attrs);
			c.vis = parse_quote!(pub);
			Item::Const(c)
		}
		Item::Static(s) => {
			let (i, t, e) = (&s.ident, &s.ty, &s.expr);
			Item::Const(parse_quote!(pub const #i: #t = #e;))
		}
		_ => return Err("unsupported item".into()),
	};
	let ts = crate::rules::apply(it.to_token_stream(), rules);
	let it: Item = parse2(ts).map_err(|e| e.to_string())?;
	Ok(show(it.to_token_stream(), &[]))
}

// ---------------------------------------------------------------- bodies

struct Tx<'a> {
	d: &'a FnDir,
	u: &'a Unit,
	texts: Vec<String>,
	loops: usize,
	shape: Vec<String>,
	lost: Vec<String>,
	params: Vec<String>,
	iters: Vec<String>,
	tmp: usize,
	hit_lets: Vec<usize>,
	hit_calls: Vec<usize>,
	hit_arms: Vec<usize>,
}

const SRC0: &[(&str, &str)] = &[
	("iter", "vx_iter"),
	("into_iter", "vx_into_iter"),
	("drain", "vx_drain"),
	("keys", "vx_keys"),
	("values", "vx_values"),
	("cloned", "vx_cloned"),
	("copied", "vx_cloned"),
	("enumerate", "vx_enumerate"),
	("collect", "vx_collect"),
	("rev", "vx_rev"),
];
const SRC1: &[(&str, &str)] = &[("chain", "vx_chain"), ("union", "vx_union"), ("zip", "vx_zip"), ("skip", "vx_skip")];
const CLOS: &[&str] = &["map", "filter", "filter_map", "flat_map", "fold", "any", "all", "for_each"];
const TERM0: &[(&str, &str)] = &[
	("max", "vx_max"),
	("min", "vx_min"),
	("sum", "vx_sum"),
	("product", "vx_product"),
	("count", "vx_count"),
	("next", "vx_first"),
];

fn strip_paren(e: &Expr) -> &Expr {
	match e {
		Expr::Paren(p) => strip_paren(&p.expr),
		Expr::Group(p) => strip_paren(&p.expr),
		e => e,
	}
}

impl<'a> Tx<'a> {
	fn subst(&self, s: &str, k: Option<usize>) -> String {
		let mut o = String::new();
		let b: Vec<char> = s.chars().collect();
		let mut i = 0;
		while i < b.len() {
			if b[i] == '$' {
				let mut j = i + 1;
				while j < b.len() && b[j].is_ascii_alphabetic() {
					j += 1;
				}
				let name: String = b[i + 1..j].iter().collect();
				let mut l = j;
				while l < b.len() && b[l].is_ascii_digit() {
					l += 1;
				}
				let num: String = b[j..l].iter().collect();
				if name.is_empty() && !num.is_empty() {
					let n: usize = num.parse().unwrap();
					o.push_str(self.params.get(n - 1).map(|s| s.as_str()).unwrap_or("__no_such_parameter"));
					i = l;
					continue;
				}
				let id = if num.is_empty() { k.map(|k| k.to_string()).unwrap_or_default() } else { num };
				match name.as_str() {
					"src" | "out" | "acc" => {
						o.push_str(&format!("__{}{}", name, id));
						i = l;
						continue;
					}
					"it" => {
						o.push_str(&format!("__it{}", id));
						i = l;
						continue;
					}
					"x" => {
						o.push_str(&format!("__x{}", id));
						i = l;
						continue;
					}
					"n" => {
						o.push_str(&format!("__it{}.pos()", id));
						i = l;
						continue;
					}
					"k" => {
						o.push_str(&format!("(__it{}.pos() - 1)", id));
						i = l;
						continue;
					}
					_ => {}
				}
			}
			o.push(b[i]);
			i += 1;
		}
		o
	}

	fn text(&mut self, s: String) -> Stmt {
		self.texts.push(s);
		let k = proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1);
		parse_quote!(__vx!{#k})
	}
	fn spec(&mut self, s: String) -> Stmt {
		self.texts.push(s);
		let k = proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1);
		parse_quote!(__vxs!{#k})
	}

	fn next_loop(&mut self, kind: &str) -> (usize, LoopDir) {
		let k = self.loops;
		self.loops += 1;
		self.shape.push(kind.to_string());
		let d = self.d.loops.get(&k).cloned().unwrap_or_default();
		if !d.kind.is_empty() && d.kind != kind {
			self.lost.push(format!("loop {} is a {}, not a {}", k, kind, d.kind));
		}
		(k, d)
	}

	/// the loop over `src` with ordinal `k`; `pat` is bound to each element
	fn iter_loop(&mut self, k: usize, d: &LoopDir, auto: &str, cond: Option<Expr>, src: Expr, pat: &Pat, body: Vec<Stmt>) -> (Vec<Stmt>, Stmt) {
		let it = format_ident!("__it{}", k);
		let x = format_ident!("__x{}", k);
		let before = {
			let s = format!(
				"let ghost __src{k} = __it{k}.all();\n{b}",
				k = k,
				b = self.subst(&d.before, Some(k))
			);
			self.text(s)
		};
		let spec = {
			let user = self.subst(&d.inv, Some(k));
			let user = user.trim_end().trim_end_matches(',').to_string();
			let s = format!(
				"invariant __it{k}.all() == __src{k}, 0 <= __it{k}.pos() <= __src{k}.len(),{auto}\n{user}{c}\ndecreases __src{k}.len() - __it{k}.pos(),",
				k = k,
				auto = auto,
				user = user,
				c = if user.is_empty() { "" } else { "," }
			);
			self.spec(s)
		};
		let s = self.subst(&d.begin, Some(k));
		let begin = self.text(s);
		let s = self.subst(&d.end, Some(k));
		let end = self.text(s);
		let bind = self.bind(pat, parse_quote!(#x));
		let cond: Expr = match cond {
			Some(c) => parse_quote!(#c && #it.has_next()),
			None => parse_quote!(#it.has_next()),
		};
		let lp: Stmt = parse_quote!(while #cond {
			#spec
			let #x = #it.take_next();
			#(#bind)*
			#begin
			#(#body)*
			#end
		});
		(vec![parse_quote!(let mut #it = #src;), before], lp)
	}

	/// bindings of a pattern of a closure or a for loop
	fn bind(&mut self, p: &Pat, e: Expr) -> Vec<Stmt> {
		match p {
			Pat::Wild(_) => vec![],
			Pat::Type(t) => self.bind(&t.pat, e),
			Pat::Paren(t) => self.bind(&t.pat, e),
			Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
				let (m, n) = (&i.mutability, &i.ident);
				vec![parse_quote!(let #m #n = #e;)]
			}
			Pat::Reference(r) => self.bind(&r.pat, parse_quote!(*#e)),
			Pat::Tuple(t) if t.elems.iter().any(|p| matches!(p, Pat::Reference(_) | Pat::Tuple(_))) || has_mut(p) => {
				let names: Vec<Ident> = t
					.elems
					.iter()
					.map(|_| {
						self.tmp += 1;
						format_ident!("__b{}", self.tmp)
					})
					.collect();
				let mut v: Vec<Stmt> = vec![parse_quote!(let (#(#names),*) = #e;)];
				for (p, n) in t.elems.iter().zip(names.iter()) {
					v.extend(self.bind(p, parse_quote!(#n)));
				}
				v
			}
			p => vec![parse_quote!(let #p = #e;)],
		}
	}

	fn iterish(&self, e: &Expr) -> bool {
		match strip_paren(e) {
			Expr::MethodCall(m) => {
				let n = m.method.to_string();
				SRC0.iter().any(|(a, b)| (n == *a || n == *b) && n != "collect" && n != "vx_collect")
					|| SRC1.iter().any(|(a, b)| n == *a || n == *b)
					|| n == "vx_take"
					|| self.u.iterfns.contains(&n)
					|| (n == "take" && m.args.len() == 1)
					|| (["map", "filter"].contains(&n.as_str()) && self.iterish(&m.receiver))
					|| ["filter_map", "flat_map"].contains(&n.as_str())
			}
			Expr::Range(_) => true,
			Expr::Call(c) => {
				let n = norm(&c.func.to_token_stream().to_string());
				n == "vx_range" || n.ends_with("_iter") || n == "vx_repeat" || n == "It::from_vec" || n.ends_with("iter::repeat")
			}
			Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.iters.contains(&i.to_string())),
			Expr::Block(b) => b.block.stmts.last().map_or(false, |s| matches!(s, Stmt::Expr(e, None) if self.iterish(e))),
			_ => false,
		}
	}

	/// an expression of type It
	fn into_it(&self, e: Expr) -> Expr {
		if self.iterish(&e) {
			e
		} else {
			parse_quote!((#e).vx_into_iter())
		}
	}

	/// closure argument: patterns and body
	fn closure(&mut self, a: &Expr, n: usize) -> (Vec<Pat>, Expr) {
		match strip_paren(a) {
			Expr::Closure(c) => (c.inputs.iter().cloned().collect(), (*c.body).clone()),
			Expr::Path(p) => {
				let names: Vec<Ident> = (0..n)
					.map(|_| {
						self.tmp += 1;
						format_ident!("__a{}", self.tmp)
					})
					.collect();
				if norm(&p.to_token_stream().to_string()).ends_with("convert::identity") {
					let n = &names[0];
					return (vec![parse_quote!(#n)], parse_quote!(#n));
				}
				(names.iter().map(|n| parse_quote!(#n)).collect(), parse_quote!(#p(#(#names),*)))
			}
			e => {
				self.lost.push(format!("not a closure: {}", e.to_token_stream()));
				(vec![parse_quote!(_); n], e.clone())
			}
		}
	}

	fn chain_call(&mut self, m: &ExprMethodCall) -> Option<Expr> {
		let name = m.method.to_string();
		if !CLOS.contains(&name.as_str()) || m.args.is_empty() {
			return None;
		}
		if m.args.iter().any(|a| !matches!(strip_paren(a), Expr::Closure(_) | Expr::Path(_))) && name != "fold" {
			return None;
		}
		let is_it = self.iterish(&m.receiver);
		if ["map", "filter"].contains(&name.as_str()) && !is_it {
			// Option
			let mut r = (*m.receiver).clone();
			self.visit_expr_mut(&mut r);
			let (p, mut b) = self.closure(&m.args[0], 1);
			self.visit_expr_mut(&mut b);
			self.tmp += 1;
			let x = format_ident!("__o{}", self.tmp);
			let out: Expr = if name == "map" {
				let bind = self.bind(&p[0], parse_quote!(#x));
				parse_quote!(match #r { Some(#x) => Some({ #(#bind)* #b }), None => None })
			} else {
				let bind = self.bind(&p[0], parse_quote!(&#x));
				parse_quote!(match #r { Some(#x) => if { #(#bind)* #b } { Some(#x) } else { None }, None => None })
			};
			return Some(out);
		}
		let mut r = (*m.receiver).clone();
		self.visit_expr_mut(&mut r);
		let r = self.into_it(r);
		let fold_init = if name == "fold" {
			let mut i = m.args[0].clone();
			self.visit_expr_mut(&mut i);
			Some(i)
		} else {
			None
		};
		let (k, d) = self.next_loop(&name);
		let out = format_ident!("__out{}", k);
		let acc = format_ident!("__acc{}", k);
		let x = format_ident!("__x{}", k);
		let s = self.subst(&d.after, Some(k));
		let after = self.text(s);
		let (pats, mut body) = self.closure(m.args.last().unwrap(), if name == "fold" { 2 } else { 1 });
		self.visit_expr_mut(&mut body);
		let e: Expr = match name.as_str() {
			"map" => {
				let (pre, lp) = self.iter_loop(
					k,
					&d,
					&format!(" __out{k}@.len() == __it{k}.pos(),", k = k),
					None,
					r,
					&pats[0],
					vec![parse_quote!(#out.push(#body);)],
				);
				parse_quote!({ #(#pre)* let mut #out = Vec::new(); #lp #after It::from_vec(#out) })
			}
			"filter" => {
				let bind = self.bind(&pats[0], parse_quote!((&#x)));
				let (pre, lp) = self.iter_loop(
					k,
					&d,
					"",
					None,
					r,
					&parse_quote!(_),
					vec![parse_quote!(if { #(#bind)* #body } { #out.push(#x); })],
				);
				parse_quote!({ #(#pre)* let mut #out = Vec::new(); #lp #after It::from_vec(#out) })
			}
			"filter_map" => {
				let y = format_ident!("__y{}", k);
				let (pre, lp) = self.iter_loop(
					k,
					&d,
					"",
					None,
					r,
					&pats[0],
					vec![parse_quote!(match #body { Some(#y) => { #out.push(#y); } None => {} })],
				);
				parse_quote!({ #(#pre)* let mut #out = Vec::new(); #lp #after It::from_vec(#out) })
			}
			"flat_map" => {
				let b = self.into_it(body);
				let (pre, lp) =
					self.iter_loop(k, &d, "", None, r, &pats[0], vec![parse_quote!(vx_extend(&mut #out, #b);)]);
				parse_quote!({ #(#pre)* let mut #out = Vec::new(); #lp #after It::from_vec(#out) })
			}
			"fold" => {
				let init = fold_init.unwrap();
				let mut st = self.bind(&pats[0], parse_quote!(#acc));
				st.push(parse_quote!(#acc = #body;));
				let (pre, lp) = self.iter_loop(k, &d, "", None, r, &pats[1], st);
				parse_quote!({ let mut #acc = #init; #(#pre)* #lp #after #acc })
			}
			"any" => {
				let (pre, lp) = self.iter_loop(
					k,
					&d,
					"",
					Some(parse_quote!(!#acc)),
					r,
					&pats[0],
					vec![parse_quote!(#acc = #body;)],
				);
				parse_quote!({ #(#pre)* let mut #acc = false; #lp #after #acc })
			}
			"all" => {
				let (pre, lp) =
					self.iter_loop(k, &d, "", Some(parse_quote!(#acc)), r, &pats[0], vec![parse_quote!(#acc = #body;)]);
				parse_quote!({ #(#pre)* let mut #acc = true; #lp #after #acc })
			}
			_ => {
				let (pre, lp) = self.iter_loop(k, &d, "", None, r, &pats[0], vec![parse_quote!(#body;)]);
				parse_quote!({ #(#pre)* #lp #after })
			}
		};
		Some(e)
	}

	fn for_loop(&mut self, pat: Pat, mut src: Expr, mut body: Block) -> Expr {
		self.visit_expr_mut(&mut src);
		let src = self.into_it(src);
		let (k, d) = self.next_loop("for");
		self.visit_block_mut(&mut body);
		let mut stmts: Vec<Stmt> = body.stmts;
		if let Some(Stmt::Expr(e, semi @ None)) = stmts.last_mut() {
			if matches!(e, Expr::Assign(_) | Expr::Binary(_) | Expr::MethodCall(_) | Expr::Call(_)) {
				*semi = Some(Default::default());
			}
		}
		let (pre, lp) = self.iter_loop(k, &d, "", None, src, &pat, stmts);
		let s = self.subst(&d.after, Some(k));
		let after = self.text(s);
		parse_quote!({ #(#pre)* #lp #after })
	}

	/// scrutinee of a slice pattern as an indexable expression
	fn slice_of(&self, e: &Expr) -> Expr {
		match e {
			Expr::Paren(p) => self.slice_of(&p.expr),
			Expr::Cast(c) => self.slice_of(&c.expr),
			Expr::Reference(r) => self.slice_of(&r.expr),
			Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.slice_of(&u.expr),
			Expr::MethodCall(m) if m.method == "as_slice" => self.slice_of(&m.receiver),
			e => e.clone(),
		}
	}

	fn slice_pat(p: &Pat) -> Option<&PatSlice> {
		match p {
			Pat::Reference(r) => Self::slice_pat(&r.pat),
			Pat::Paren(r) => Self::slice_pat(&r.pat),
			Pat::Slice(s) if !s.elems.iter().any(|e| matches!(e, Pat::Rest(_))) => Some(s),
			_ => None,
		}
	}

	fn slice_arm(s: &PatSlice, v: &Ident) -> (Expr, Vec<Stmt>) {
		let n = s.elems.len();
		let n = proc_macro2::Literal::usize_unsuffixed(n);
		let b = s
			.elems
			.iter()
			.enumerate()
			.filter(|(_, p)| !matches!(p, Pat::Wild(_)))
			.map(|(i, p)| {
				let i = proc_macro2::Literal::usize_unsuffixed(i);
				parse_quote!(let #p = #v[#i];)
			})
			.collect();
		(parse_quote!(#v.len() == #n), b)
	}

	fn is_method_lhs(&self, e: &Expr) -> bool {
		let n = norm(&e.to_token_stream().to_string());
		self.d.methods.contains(&n) || self.u.methods.contains(&n)
	}
	fn is_raw(&self, e: &Expr) -> bool {
		let n = norm(&strip_paren(e).to_token_stream().to_string());
		self.d.raw.contains(&n) || self.u.raw.contains(&n)
	}

	fn panic_name(&self) -> Ident {
		if self.d.panic_allowed {
			format_ident!("vx_panic_allowed")
		} else {
			format_ident!("vx_panic")
		}
	}

	fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
		let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
		let p = self.panic_name();
		match name.as_str() {
			"panic" | "unimplemented" | "unreachable" | "todo" => Some(parse_quote!(#p())),
			"assert" | "debug_assert" => {
				let args = m
					.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
					.ok()?;
				let c = args.first()?.clone();
				Some(parse_quote!(if !(#c) { #p(); }))
			}
			"assert_eq" | "debug_assert_eq" => {
				let args = m
					.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
					.ok()?;
				let (a, b) = (args.get(0)?.clone(), args.get(1)?.clone());
				Some(parse_quote!(if !(#a == #b) { #p(); }))
			}
			_ => None,
		}
	}

	/// code that does nothing
	fn noop(s: &Stmt) -> bool {
		fn lit(e: &Expr) -> bool {
			match e {
				Expr::Lit(_) => true,
				Expr::Tuple(t) => t.elems.iter().all(lit),
				Expr::Paren(p) => lit(&p.expr),
				Expr::Binary(b) => {
					!matches!(
						b.op,
						BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::BitXorAssign(_)
					) && lit(&b.left) && lit(&b.right)
				}
				Expr::Unary(u) => lit(&u.expr),
				Expr::Cast(c) => lit(&c.expr),
				Expr::Reference(r) => lit(&r.expr),
				Expr::Block(b) => b.block.stmts.iter().all(Tx::noop),
				Expr::If(i) => lit(&i.cond) && i.then_branch.stmts.is_empty() && i.else_branch.is_none(),
				_ => false,
			}
		}
		match s {
			Stmt::Local(l) => {
				let wild = match &l.pat {
					Pat::Wild(_) => true,
					Pat::Type(t) => matches!(&*t.pat, Pat::Wild(_)),
					Pat::Ident(i) => i.ident.to_string().starts_with('_'),
					_ => false,
				};
				wild && l.init.as_ref().map_or(true, |i| lit(&i.expr) && i.diverge.is_none())
			}
			Stmt::Expr(e, Some(_)) => lit(e),
			Stmt::Expr(Expr::Block(b), None) => !b.block.stmts.is_empty() && b.block.stmts.iter().all(Tx::noop) && b.block.stmts.iter().all(|s| !matches!(s, Stmt::Expr(_, None))),
			Stmt::Macro(m) => {
				let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
				["debug_assert", "assert"].contains(&n.as_str()) && m.mac.tokens.to_string() == "true"
			}
			_ => false,
		}
	}
}

fn has_mut(p: &Pat) -> bool {
	match p {
		Pat::Ident(i) => i.mutability.is_some(),
		Pat::Tuple(t) => t.elems.iter().any(has_mut),
		Pat::Paren(t) => has_mut(&t.pat),
		Pat::Type(t) => has_mut(&t.pat),
		_ => false,
	}
}

struct Ret;
impl VisitMut for Ret {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::Closure(_) => {}
			Expr::Return(r) if r.expr.is_none() => *e = parse_quote!(continue),
			_ => visit_mut::visit_expr_mut(self, e),
		}
	}
}

fn calls(s: &TokenStream, name: &str) -> bool {
	let v: Vec<TokenTree> = s.clone().into_iter().collect();
	for i in 0..v.len() {
		match &v[i] {
			TokenTree::Ident(id) if *id == name => {
				if let Some(TokenTree::Group(g)) = v.get(i + 1) {
					if g.delimiter() == Delimiter::Parenthesis {
						return true;
					}
				}
			}
			TokenTree::Group(g) if g.delimiter() != Delimiter::Brace => {
				if calls(&g.stream(), name) {
					return true;
				}
			}
			_ => {}
		}
	}
	false
}

impl<'a> VisitMut for Tx<'a> {
	fn visit_block_mut(&mut self, b: &mut Block) {
		let old = std::mem::take(&mut b.stmts);
		for mut s in old {
			if Self::noop(&s) {
				continue;
			}
			// hints before calls and after lets, by the text of the source
			let src = s.to_token_stream();
			for i in 0..self.d.calls.len() {
				let (n, t) = self.d.calls[i].clone();
				if !self.hit_calls.contains(&i) && calls(&src, &n) {
					self.hit_calls.push(i);
					let t = self.subst(&t, None);
					let st = self.text(t);
					b.stmts.push(st);
				}
			}
			let mut after = Vec::new();
			for i in 0..self.d.afters.len() {
				let (n, t) = self.d.afters[i].clone();
				if matches!(&s, Stmt::Local(_) | Stmt::Expr(_, Some(_))) && calls(&src, &n) {
					self.hit_calls.push(usize::MAX - i);
					after.push(t);
				}
			}
			if let Stmt::Local(l) = &s {
				let id = match &l.pat {
					Pat::Ident(i) => Some(i.ident.to_string()),
					Pat::Type(t) => match &*t.pat {
						Pat::Ident(i) => Some(i.ident.to_string()),
						_ => None,
					},
					_ => None,
				};
				if let Some(id) = id {
					if l.init.as_ref().map_or(false, |i| self.iterish(&i.expr)) {
						self.iters.push(id.clone());
					}
					for i in 0..self.d.lets.len() {
						let (n, t) = self.d.lets[i].clone();
						if !self.hit_lets.contains(&i) && n == id {
							self.hit_lets.push(i);
							after.push(t);
						}
					}
				}
			}
			if let Stmt::Macro(m) = &s {
				if let Some(e) = self.macro_expr(&m.mac) {
					s = Stmt::Expr(e, if m.semi_token.is_some() { Some(Default::default()) } else { None });
				}
			}
			self.visit_stmt_mut(&mut s);
			// a block-like expression used as statement needs no semicolon but
			// one that became a block may end the function
			b.stmts.push(s);
			for t in after {
				let t = self.subst(&t, None);
				let st = self.text(t);
				b.stmts.push(st);
			}
		}
	}

	fn visit_arm_mut(&mut self, a: &mut Arm) {
		let n = norm(&a.pat.to_token_stream().to_string());
		visit_mut::visit_arm_mut(self, a);
		for i in 0..self.d.arms.len() {
			let (p, t) = self.d.arms[i].clone();
			if n.starts_with(&norm(&p)) && !self.hit_arms.contains(&i) {
				self.hit_arms.push(i);
				let t = self.subst(&t, None);
				let st = self.text(t);
				let e = &a.body;
				a.body = parse_quote!({ #st #e });
				break;
			}
		}
	}

	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::Lit(l) => {
				if let Lit::Float(f) = &l.lit {
					// decimal literal as an exact fraction
					let s = f.base10_digits().to_string();
					let (m, x) = match s.split_once(|c| c == 'e' || c == 'E') {
						Some((m, x)) => (m.to_string(), x.parse::<i32>().unwrap_or(0)),
						None => (s, 0),
					};
					let (i, fr) = m.split_once('.').unwrap_or((m.as_str(), ""));
					let fr = fr.trim_end_matches('0');
					let mut n: i64 = format!("{}{}", i, fr).parse().unwrap_or(0);
					let mut d: i64 = 1;
					let x = x - fr.len() as i32;
					for _ in 0..x.abs().min(17) {
						if x > 0 {
							n *= 10;
						} else {
							d *= 10;
						}
					}
					let (n, d) = (proc_macro2::Literal::i64_unsuffixed(n), proc_macro2::Literal::i64_unsuffixed(d));
					*e = parse_quote!(vx_float(#n, #d));
				}
			}
			Expr::Cast(c) if norm(&c.ty.to_token_stream().to_string()) == "f64" => {
				self.visit_expr_mut(&mut c.expr);
				let x = &c.expr;
				*e = parse_quote!(vx_f64_of(#x));
			}
			Expr::Unsafe(u) => {
				let b = u.block.clone();
				if b.stmts.len() == 1 {
					if let Stmt::Expr(x, None) = &b.stmts[0] {
						*e = parse_quote!((#x));
						return self.visit_expr_mut(e);
					}
				}
				*e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
				self.visit_expr_mut(e);
			}
			Expr::Macro(m) => {
				if let Some(mut x) = self.macro_expr(&m.mac) {
					self.visit_expr_mut(&mut x);
					*e = x;
				} else if m.mac.path.is_ident("vec") {
					// the elements may need rewriting as well
					if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
						let mut args: Vec<Expr> = args.into_iter().collect();
						for a in args.iter_mut() {
							self.visit_expr_mut(a);
						}
						*e = parse_quote!(vec![#(#args),*]);
					} else {
						let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
						if let Some(i) = v.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')) {
							let a: TokenStream = v[..i].iter().cloned().collect();
							let b: TokenStream = v[i + 1..].iter().cloned().collect();
							if let (Ok(mut a), Ok(mut b)) = (parse2::<Expr>(a), parse2::<Expr>(b)) {
								self.visit_expr_mut(&mut a);
								self.visit_expr_mut(&mut b);
								*e = parse_quote!(vx_repeat(#a, #b).vx_collect::<Vec<_>>());
							}
						}
					}
				}
			}
			Expr::ForLoop(f) => {
				let x = self.for_loop((*f.pat).clone(), (*f.expr).clone(), f.body.clone());
				*e = x;
			}
			Expr::While(w) => {
				let (k, d) = self.next_loop("while");
				self.visit_expr_mut(&mut w.cond);
				self.visit_block_mut(&mut w.body);
				let s = self.subst(&d.inv, Some(k));
				let spec = self.spec(s);
				let s = self.subst(&d.begin, Some(k));
				let begin = self.text(s);
				let s = self.subst(&d.end, Some(k));
				let end = self.text(s);
				let s = self.subst(&d.before, Some(k));
				let before = self.text(s);
				let s = self.subst(&d.after, Some(k));
				let after = self.text(s);
				let (c, b) = (&w.cond, &w.body.stmts);
				*e = parse_quote!({ #before while #c { #spec #begin #(#b)* #end } #after });
			}
			Expr::Loop(w) => {
				let (k, d) = self.next_loop("loop");
				self.visit_block_mut(&mut w.body);
				let s = self.subst(&d.inv, Some(k));
				let spec = self.spec(s);
				w.body.stmts.insert(0, spec);
			}
			Expr::Range(r) => {
				if let (Some(a), Some(b)) = (&r.start, &r.end) {
					let (mut a, mut b) = ((**a).clone(), (**b).clone());
					self.visit_expr_mut(&mut a);
					self.visit_expr_mut(&mut b);
					*e = if matches!(r.limits, RangeLimits::HalfOpen(_)) {
						parse_quote!(vx_range(#a, #b))
					} else {
						parse_quote!(vx_range(#a, #b + 1))
					};
				} else if let (Some(a), None) = (&r.start, &r.end) {
					*e = parse_quote!(vx_range_from(#a));
				}
			}
			Expr::Call(c) => {
				let n = norm(&c.func.to_token_stream().to_string());
				let cb = self
					.d
					.callbacks
					.iter()
					.chain(self.u.callbacks.iter())
					.find(|(f, _)| *f == n)
					.cloned();
				if let Some((_, i)) = cb {
					if let Some(Expr::Closure(cl)) = c.args.get(i).map(strip_paren) {
						let cl = cl.clone();
						self.tmp += 1;
						let v = format_ident!("__cb{}", self.tmp);
						let mut call = c.clone();
						call.args[i] = parse_quote!(&mut #v);
						let mut args = call.args.clone();
						for a in args.iter_mut() {
							self.visit_expr_mut(a);
						}
						call.args = args;
						let mut body: Block = match *cl.body {
							Expr::Block(ref b) => b.block.clone(),
							ref x => parse_quote!({ #x; }),
						};
						Ret.visit_block_mut(&mut body);
						let lp = self.for_loop(cl.inputs[0].clone(), parse_quote!(#v.iter()), body);
						*e = parse_quote!({ let mut #v = Vec::new(); #call; #lp });
						return;
					}
				}
				if n.ends_with("usize::max_value") && c.args.is_empty() {
					*e = parse_quote!(usize::MAX);
					return;
				}
				visit_mut::visit_expr_mut(self, e);
			}
			Expr::MethodCall(m) => {
				if m.method == "take" && m.args.len() == 1 {
					if let Expr::Call(c) = strip_paren(&m.receiver) {
						if norm(&c.func.to_token_stream().to_string()).ends_with("iter::repeat") {
							let (mut a, mut n) = (c.args[0].clone(), m.args[0].clone());
							self.visit_expr_mut(&mut a);
							self.visit_expr_mut(&mut n);
							*e = parse_quote!(vx_repeat(#a, #n));
							return;
						}
					}
				}
				let mc = m.clone();
				if let Some(x) = self.chain_call(&mc) {
					*e = x;
					return;
				}
				let name = m.method.to_string();
				let raw = self.is_raw(&m.receiver);
				if raw && (name == "get_unchecked" || name == "get_unchecked_mut") {
					let (mut r, mut i) = ((*m.receiver).clone(), m.args[0].clone());
					self.visit_expr_mut(&mut r);
					self.visit_expr_mut(&mut i);
					*e = parse_quote!(#r[#i]);
					return;
				}
				let it_recv = self.iterish(&m.receiver);
				visit_mut::visit_expr_method_call_mut(self, m);
				match m.args.len() {
					0 => {
						if let Some((_, b)) = SRC0.iter().find(|(a, _)| *a == name) {
							m.method = format_ident!("{}", b);
						} else if it_recv {
							if let Some((_, b)) = TERM0.iter().find(|(a, _)| *a == name) {
								m.method = format_ident!("{}", b);
							}
						}
					}
					1 => {
						if let Some((_, b)) = SRC1.iter().find(|(a, _)| *a == name) {
							m.method = format_ident!("{}", b);
						} else if name == "take" {
							m.method = format_ident!("vx_take");
						} else if name == "extend_from_slice" {
							let a = strip_paren(&m.args[0]).clone();
							let a = match &a {
								Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
								_ => a,
							};
							let r = &m.receiver;
							*e = parse_quote!(vx_extend(&mut #r, (#a).vx_iter().vx_cloned()));
							return;
						} else if name == "extend" {
							let a = self.into_it(m.args[0].clone());
							let r = &m.receiver;
							*e = parse_quote!(vx_extend(&mut #r, #a));
							return;
						}
					}
					_ => {}
				}
				if self.d.panic_allowed && name == "unwrap" {
					m.method = format_ident!("vx_unwrap");
				}
			}
			Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
				if let Expr::MethodCall(m) = strip_paren(&u.expr) {
					if self.is_raw(&m.receiver) && m.method.to_string().starts_with("get_unchecked") {
						let mut x = (*u.expr).clone();
						self.visit_expr_mut(&mut x);
						*e = x;
						return;
					}
				}
				visit_mut::visit_expr_mut(self, e);
			}
			Expr::Match(m) if m.arms.iter().any(|a| Self::slice_pat(&a.pat).is_some()) => {
				self.tmp += 1;
				let v = format_ident!("__s{}", self.tmp);
				let s = self.slice_of(&m.expr);
				let mut chain: Option<Expr> = None;
				for a in m.arms.iter().rev() {
					let body = &a.body;
					if a.guard.is_some() {
						self.lost.push("a guarded slice pattern".into());
					}
					match Self::slice_pat(&a.pat) {
						Some(sp) => {
							let (c, b) = Self::slice_arm(sp, &v);
							let els = chain.take().unwrap_or_else(|| parse_quote!({ vx_panic() }));
							let els: Expr = match els {
								Expr::Block(_) | Expr::If(_) => els,
								o => parse_quote!({ #o }),
							};
							chain = Some(parse_quote!(if #c { #(#b)* #body } else #els));
						}
						None => match &a.pat {
							Pat::Wild(_) => chain = Some(parse_quote!({ #body })),
							_ => self.lost.push("a slice match with other patterns".into()),
						},
					}
				}
				let chain = chain.unwrap();
				*e = parse_quote!({ let #v = #s; #chain });
				self.visit_expr_mut(e);
			}
			Expr::If(i) => {
				if let Expr::Let(l) = &*i.cond {
					if let Some(sp) = Self::slice_pat(&l.pat) {
						self.tmp += 1;
						let v = format_ident!("__s{}", self.tmp);
						let s = self.slice_of(&l.expr);
						let (c, b) = Self::slice_arm(sp, &v);
						let then = &i.then_branch.stmts;
						let els: Expr = i.else_branch.as_ref().map(|(_, e)| (**e).clone()).unwrap_or_else(|| parse_quote!({}));
						*e = parse_quote!({ let #v = #s; if #c { #(#b)* #(#then)* } else #els });
						return self.visit_expr_mut(e);
					}
				}
				visit_mut::visit_expr_mut(self, e);
			}
			Expr::Binary(b) => {
				let op: Option<(BinOp, &str)> = match b.op {
					BinOp::AddAssign(_) => Some((BinOp::Add(Default::default()), "add_assign")),
					BinOp::SubAssign(_) => Some((BinOp::Sub(Default::default()), "sub_assign")),
					BinOp::MulAssign(_) => Some((BinOp::Mul(Default::default()), "mul_assign")),
					_ => None,
				};
				if let Some((op, meth)) = op {
					// *m.entry(k).or_insert(d) += w
					if let Expr::Unary(u) = strip_paren(&b.left) {
						if let (UnOp::Deref(_), Expr::MethodCall(oi)) = (&u.op, strip_paren(&u.expr)) {
							if oi.method == "or_insert" {
								if let Expr::MethodCall(en) = strip_paren(&oi.receiver) {
									if en.method == "entry" {
										let (mut m, mut k, mut dv, mut w) = (
											(*en.receiver).clone(),
											en.args[0].clone(),
											oi.args[0].clone(),
											(*b.right).clone(),
										);
										self.visit_expr_mut(&mut m);
										self.visit_expr_mut(&mut k);
										self.visit_expr_mut(&mut dv);
										self.visit_expr_mut(&mut w);
										*e = parse_quote!({ let __ek = #k; let __ed = #dv; let __ew = #w; let __eo = #m.vx_get_or(&__ek, __ed); #m.insert(__ek, __eo #op __ew); });
										return;
									}
								}
							}
						}
					}
					let lhs = (*b.left).clone();
					let m = self.is_method_lhs(&lhs);
					let (mut l, mut r) = (lhs, (*b.right).clone());
					self.visit_expr_mut(&mut l);
					self.visit_expr_mut(&mut r);
					if m {
						let meth = format_ident!("{}", meth);
						*e = parse_quote!(#l.#meth(#r));
					} else {
						let r: Expr = match strip_paren(&r) {
							Expr::Path(_) | Expr::Lit(_) => r,
							_ => parse_quote!((#r)),
						};
						*e = parse_quote!(#l = #l #op #r);
					}
					return;
				}
				visit_mut::visit_expr_mut(self, e);
			}
			_ => visit_mut::visit_expr_mut(self, e),
		}
	}
}

/// `--probe yes`: add an assertion that must fail to the end of every function
pub static PROBE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// `&mut |x| body`, with the contract the unit gives it
struct Closures<'a, 'b> {
	t: &'a mut Tx<'b>,
	k: usize,
}
impl<'a, 'b> VisitMut for Closures<'a, 'b> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		if let Expr::Reference(r) = e {
			if let Expr::Closure(c) = strip_paren(&r.expr).clone() {
				let k = self.k;
				self.k += 1;
				if let Some((head, con)) = self.t.d.closures.get(k).cloned() {
					// head: type of each parameter -> type of the result
					let (ps, ret) = head.split_once("->").unwrap();
					let tys: Vec<&str> = ps.split(';').map(|s| s.trim()).collect();
					let mut con = con;
					let mut hd = Vec::new();
					for (i, p) in c.inputs.iter().enumerate() {
						let p = match p {
							Pat::Type(t) => &*t.pat,
							p => p,
						};
						match p {
							Pat::Ident(n) if i < tys.len() => {
								con = con.replace(&format!("${}", i + 1), &n.ident.to_string());
								hd.push(format!("{}: {}", n.ident, tys[i]));
							}
							_ => self.t.lost.push("a closure's parameter".into()),
						}
					}
					if c.inputs.len() != tys.len() {
						self.t.lost.push("a closure's parameters".into());
					}
					let mut body = (*c.body).clone();
					self.t.visit_expr_mut(&mut body);
					let body = show(body.to_token_stream(), &self.t.texts);
					let s = format!("&|{}| -> (r: {}) {} {{ {} }}", hd.join(", "), ret.trim(), con.trim_end(), body);
					self.t.texts.push(s);
					let k = proc_macro2::Literal::usize_unsuffixed(self.t.texts.len() - 1);
					*e = parse_quote!(__vx!{#k});
					return;
				}
			}
		}
		visit_mut::visit_expr_mut(self, e);
	}
}

pub fn function(u: &Unit, d: &FnDir, mut sig: Signature, mut block: Block) -> FnText {
	Clean.visit_signature_mut(&mut sig);
	Clean.visit_block_mut(&mut block);
	let mut t = Tx {
		d,
		u,
		texts: Vec::new(),
		loops: 0,
		shape: Vec::new(),
		lost: Vec::new(),
		params: Vec::new(),
		iters: Vec::new(),
		tmp: 0,
		hit_lets: Vec::new(),
		hit_calls: Vec::new(),
		hit_arms: Vec::new(),
	};
	// parameters
	let mut ps = Vec::new();
	let mut pre: Vec<Stmt> = Vec::new();
	let mut rebind_self = false;
	let mut idx = 0;
	for a in sig.inputs.iter() {
		match a {
			FnArg::Receiver(r) => {
				let mut s = String::new();
				if !d.selfty.is_empty() {
					s.push_str("this: ");
				}
				if r.reference.is_some() {
					s.push('&');
				}
				if r.mutability.is_some() {
					if r.reference.is_some() {
						s.push_str("mut ");
					} else {
						// a receiver taken by value and changed: the contract speaks about the argument
						rebind_self = true;
					}
				}
				s.push_str(if d.selfty.is_empty() { "self" } else { &d.selfty });
				ps.push(s);
			}
			FnArg::Typed(p) => {
				let name = match &*p.pat {
					Pat::Ident(i) => {
						if i.mutability.is_some() {
							let n = &i.ident;
							pre.push(parse_quote!(let mut #n = #n;));
						}
						i.ident.to_string()
					}
					_ => {
						t.lost.push("a parameter pattern".into());
						"_".into()
					}
				};
				let ty = match d.params.get(idx) {
					Some(o) if o != "_" => o.clone(),
					_ => show(p.ty.to_token_stream(), &[]),
				};
				ps.push(format!("{}: {}", name, ty));
				t.params.push(name);
				idx += 1;
			}
		}
	}
	let ret = if !d.ret.is_empty() {
		if d.ret == "()" {
			String::new()
		} else {
			format!(" -> (res: {})", d.ret)
		}
	} else {
		match &sig.output {
			ReturnType::Default => String::new(),
			ReturnType::Type(_, ty) => {
				let s = show(ty.to_token_stream(), &[]);
				if s.trim() == "()" {
					String::new()
				} else {
					format!(" -> (res: {})", s.trim())
				}
			}
		}
	};
	if rebind_self {
		let r = crate::rules::rule("self =>> __self");
		if let Ok(b) = parse2(crate::rules::apply(block.to_token_stream(), &[r])) {
			block = b;
		}
		let me = format_ident!("{}", if d.selfty.is_empty() { "self" } else { "this" });
		pre.push(parse_quote!(let mut __self = #me;));
	}
	if !d.closures.is_empty() {
		let mut c = Closures { t: &mut t, k: 0 };
		c.visit_block_mut(&mut block);
		if c.k != d.closures.len() {
			t.lost.push("a different number of closures".into());
		}
	}
	t.visit_block_mut(&mut block);
	let entry = {
		let s = t.subst(&d.entry, None);
		t.text(s)
	};
	let probe = PROBE.load(std::sync::atomic::Ordering::Relaxed) && !d.props.is_empty();
	if !d.exit.is_empty() || probe {
		let mut s = t.subst(&d.exit, None);
		if probe {
			// reaching the end has to be possible under the contract
			s.push_str("\nassert(false);");
		}
		let ex = t.text(s);
		match block.stmts.pop() {
			Some(Stmt::Expr(e, None)) if !ret.is_empty() => {
				let ty: Option<Type> = ret.trim().strip_prefix("-> (res:").and_then(|t| t.strip_suffix(')')).and_then(|t| parse_str(t).ok());
				let st: Stmt = match ty {
					Some(ty) => parse_quote!(let __res: #ty = #e;),
					None => parse_quote!(let __res = #e;),
				};
				block.stmts.push(st);
				block.stmts.push(ex);
				block.stmts.push(parse_quote!(return __res;));
				// the marker keeps this the tail
				let last = block.stmts.pop().unwrap();
				let _ = last;
				block.stmts.push(Stmt::Expr(parse_quote!(__res), None));
			}
			Some(s) => {
				block.stmts.push(match s {
					Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
					s => s,
				});
				block.stmts.push(ex);
			}
			None => block.stmts.push(ex),
		}
	}
	pre.push(entry);
	// what the proof does not need to see comes first
	let hides: Vec<&String> = d.attrs.iter().filter(|a| a.starts_with("hide(")).collect();
	if !hides.is_empty() {
		let h = t.text(hides.iter().map(|a| a.as_str()).collect::<Vec<_>>().join("\n"));
		pre.insert(0, h);
	}
	for s in pre.into_iter().rev() {
		block.stmts.insert(0, s);
	}
	for (i, (n, _)) in d.lets.iter().enumerate() {
		if !t.hit_lets.contains(&i) {
			t.lost.push(format!("no `let {}`", n));
		}
	}
	for (i, (n, _)) in d.afters.iter().enumerate() {
		if !t.hit_calls.contains(&(usize::MAX - i)) {
			t.lost.push(format!("no call of {}", n));
		}
	}
	for (i, (n, _)) in d.calls.iter().enumerate() {
		if !t.hit_calls.contains(&i) {
			t.lost.push(format!("no call of {}", n));
		}
	}
	for (i, (n, _)) in d.arms.iter().enumerate() {
		if !t.hit_arms.contains(&i) {
			t.lost.push(format!("no arm {}", n));
		}
	}
	for k in d.loops.keys() {
		if *k >= t.loops {
			t.lost.push(format!("there is no loop {}", k));
		}
	}
	let contract = t.subst(&d.contract, None);
	let name = if d.rename.is_empty() { sig.ident.to_string() } else { d.rename.clone() };
	let mut f = String::new();
	if !d.attrs.iter().any(|a| a.contains("loop_isolation")) {
		f.push_str("#[verifier::loop_isolation(false)]\n");
	}
	for a in d.attrs.iter().filter(|a| !a.starts_with("hide(")) {
		f.push_str(a);
		f.push('\n');
	}
	let vis = if d.wrap.contains(" for ") { "" } else { "pub " };
	let lt = if d.lifetimes.is_empty() { String::new() } else { format!("<{}>", d.lifetimes) };
	f.push_str(&format!("{}fn {}{}({}){}\n{}", vis, name, lt, ps.join(", "), ret, contract));
	f.push_str(&show(block.to_token_stream(), &t.texts));
	let text = if !d.wrap.is_empty() {
		d.wrap.replace("$fn", &f)
	} else if d.imp.is_empty() {
		f
	} else {
		format!("impl {} {{\n{}\n}}\n", d.imp, f)
	};
	FnText { text, lost: t.lost, shape: t.shape }
}
