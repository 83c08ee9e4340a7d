//! Unit files: Verus text with `//@` directives.
use crate::rules::{apply, rule, Rule};
use crate::{sel, tx};
use quote::ToTokens;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

#[derive(Default, Clone, Debug)]
pub struct LoopDir {
	pub kind: String,
	pub inv: String,
	pub begin: String,
	pub end: String,
	pub before: String,
	pub after: String,
}

#[derive(Default, Clone, Debug)]
pub struct FnDir {
	pub file: String,
	pub imp: String,
	pub tr: String,
	pub args: String,
	pub name: String,
	pub rename: String,
	pub wrap: String,
	pub props: Vec<String>,
	pub panic_allowed: bool,
	pub attrs: Vec<String>,
	pub lifetimes: String,
	pub ret: String,
	pub params: Vec<String>,
	pub contract: String,
	pub loops: HashMap<usize, LoopDir>,
	pub entry: String,
	pub exit: String,
	pub lets: Vec<(String, String)>,
	pub calls: Vec<(String, String)>,
	pub afters: Vec<(String, String)>,
	pub arms: Vec<(String, String)>,
	/// closures passed by reference: parameter types, result, contract
	pub closures: Vec<(String, String)>,
	pub rules: Vec<Rule>,
	/// the function becomes a free one, of `this: TYPE`
	pub selfty: String,
	/// default: the trait whose default method is taken when the impl has none
	pub default: String,
	/// rules for a body taken from the trait
	pub drules: Vec<Rule>,
	pub raw: Vec<String>,
	pub methods: Vec<String>,
	pub optmap: bool,
	pub callbacks: Vec<(String, usize)>,
	pub line: usize,
}

#[derive(Clone, Debug)]
pub enum Piece {
	Text(String),
	Fn(FnDir),
	Item { file: String, name: String, rules: Vec<Rule>, attrs: String, mode: String },
}

pub struct Unit {
	pub name: String,
	pub pieces: Vec<Piece>,
	pub rules: Vec<Rule>,
	pub raw: Vec<String>,
	pub methods: Vec<String>,
	/// methods that return an iterator
	pub iterfns: Vec<String>,
	pub callbacks: Vec<(String, usize)>,
}

fn kv(s: &str) -> HashMap<String, String> {
	// key=value or key="value with spaces"
	let mut m = HashMap::new();
	let mut it = s.chars().peekable();
	loop {
		while it.peek().map_or(false, |c| c.is_whitespace()) {
			it.next();
		}
		if it.peek().is_none() {
			break;
		}
		let mut k = String::new();
		while let Some(c) = it.peek() {
			if *c == '=' || c.is_whitespace() {
				break;
			}
			k.push(*c);
			it.next();
		}
		let mut v = String::new();
		if it.peek() == Some(&'=') {
			it.next();
			if it.peek() == Some(&'"') {
				it.next();
				for c in it.by_ref() {
					if c == '"' {
						break;
					}
					v.push(c);
				}
			} else {
				while let Some(c) = it.peek() {
					if c.is_whitespace() {
						break;
					}
					v.push(*c);
					it.next();
				}
			}
		}
		m.insert(k, v);
	}
	m
}

pub fn read(p: &Path) -> Unit {
	let mut u = Unit {
		name: p.file_stem().unwrap().to_string_lossy().to_string(),
		pieces: Vec::new(),
		rules: Vec::new(),
		raw: Vec::new(),
		methods: Vec::new(),
		iterfns: Vec::new(),
		callbacks: Vec::new(),
	};
	read_into(p, &mut u);
	u
}

fn read_into(p: &Path, u: &mut Unit) {
	let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
	let mut text = String::new();
	let mut cur: Option<FnDir> = None;
	#[derive(Clone, PartialEq)]
	enum At {
		Contract,
		Loop(usize, &'static str),
		Entry,
		Exit,
		Let,
		Call,
		After,
		Arm,
		Closure,
	}
	let mut at = At::Contract;
	for (ln, line) in s.lines().enumerate() {
		let t = line.trim_start();
		if let Some(d) = t.strip_prefix("//@") {
			let (cmd, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
			let rest = rest.trim();
			if let Some(f) = cur.as_mut() {
				match cmd {
					"end" => {
						let f = cur.take().unwrap();
						u.pieces.push(Piece::Fn(f));
					}
					"loop" => {
						let w: Vec<&str> = rest.split_whitespace().collect();
						let k: usize = w[0].parse().unwrap();
						let d = f.loops.entry(k).or_default();
						let mut which = "inv";
						for x in &w[1..] {
							match *x {
								"begin" => which = "begin",
								"end" => which = "end",
								"before" => which = "before",
								"after" => which = "after",
								k => d.kind = k.to_string(),
							}
						}
						at = At::Loop(k, which);
					}
					"entry" => at = At::Entry,
					"exit" => at = At::Exit,
					"let" => {
						f.lets.push((rest.to_string(), String::new()));
						at = At::Let;
					}
					"call" => {
						f.calls.push((rest.to_string(), String::new()));
						at = At::Call;
					}
					// after every statement that calls the function
					"after" => {
						f.afters.push((rest.to_string(), String::new()));
						at = At::After;
					}
					"arm" => {
						f.arms.push((rest.to_string(), String::new()));
						at = At::Arm;
					}
					"closure" => {
						f.closures.push((rest.to_string(), String::new()));
						at = At::Closure;
					}
					"rule" => f.rules.push(rule(rest)),
					"self" => f.selfty = rest.to_string(),
					"drule" => f.drules.push(rule(rest)),
					"raw" => f.raw.extend(rest.split(',').map(|s| sel::norm(s))),
					"method" => f.methods.extend(rest.split(',').map(|s| sel::norm(s))),
					"optmap" => f.optmap = true,
					"ret" => f.ret = rest.to_string(),
					"param" => f.params.push(rest.to_string()),
					"attr" => f.attrs.push(rest.to_string()),
					// lifetimes the parameters are written with
					"lifetimes" => f.lifetimes = rest.to_string(),
					"callback" => {
						let (a, b) = rest.split_once(' ').unwrap();
						f.callbacks.push((a.to_string(), b.parse().unwrap()));
					}
					c => panic!("{}:{}: unknown directive {}", p.display(), ln + 1, c),
				}
				continue;
			}
			match cmd {
				"unit" => u.name = rest.to_string(),
				"include" => {
					if !text.is_empty() {
						u.pieces.push(Piece::Text(std::mem::take(&mut text)));
					}
					let q: PathBuf = p.parent().unwrap().join(rest);
					read_into(&q, u);
				}
				"rule" => u.rules.push(rule(rest)),
				"raw" => u.raw.extend(rest.split(',').map(|s| sel::norm(s))),
				"method" => u.methods.extend(rest.split(',').map(|s| sel::norm(s))),
				"iterfn" => u.iterfns.extend(rest.split(',').map(|s| s.trim().to_string())),
				"callback" => {
					let (a, b) = rest.split_once(' ').unwrap();
					u.callbacks.push((a.to_string(), b.parse().unwrap()));
				}
				"fn" | "item" => {
					if !text.is_empty() {
						u.pieces.push(Piece::Text(std::mem::take(&mut text)));
					}
					let m = kv(rest);
					let g = |k: &str| m.get(k).cloned().unwrap_or_default();
					if cmd == "item" {
						u.pieces.push(Piece::Item {
							file: g("file"),
							name: g("name"),
							rules: g("rules").split(";;").filter(|r| r.contains("=>>")).map(rule).collect(),
							attrs: g("attrs"),
							mode: g("mode"),
						});
					} else {
						cur = Some(FnDir {
							file: g("file"),
							imp: g("impl"),
							tr: g("trait"),
							args: g("args"),
							default: g("default"),
							name: g("fn"),
							rename: g("as"),
							wrap: g("wrap"),
							props: g("props").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
							panic_allowed: g("panic") == "allowed",
							line: ln + 1,
							..Default::default()
						});
						at = At::Contract;
					}
				}
				c => panic!("{}:{}: unknown directive {}", p.display(), ln + 1, c),
			}
			continue;
		}
		if let Some(f) = cur.as_mut() {
			let dst = match &at {
				At::Contract => &mut f.contract,
				At::Loop(k, w) => {
					let d = f.loops.get_mut(k).unwrap();
					match *w {
						"begin" => &mut d.begin,
						"end" => &mut d.end,
						"before" => &mut d.before,
						"after" => &mut d.after,
						_ => &mut d.inv,
					}
				}
				At::Entry => &mut f.entry,
				At::Exit => &mut f.exit,
				At::Let => &mut f.lets.last_mut().unwrap().1,
				At::Call => &mut f.calls.last_mut().unwrap().1,
				At::After => &mut f.afters.last_mut().unwrap().1,
				At::Arm => &mut f.arms.last_mut().unwrap().1,
				At::Closure => &mut f.closures.last_mut().unwrap().1,
			};
			dst.push_str(line);
			dst.push('\n');
		} else {
			text.push_str(line);
			text.push('\n');
		}
	}
	assert!(cur.is_none(), "{}: //@end missing", p.display());
	if !text.is_empty() {
		u.pieces.push(Piece::Text(text));
	}
}

pub struct FnOut {
	pub name: String,
	pub file: String,
	pub lo: usize,
	pub hi: usize,
	pub props: Vec<String>,
	pub lost: Vec<String>,
	pub shape: Vec<String>,
	pub src: String,
}

pub struct Out {
	pub text: String,
	pub fns: Vec<FnOut>,
}

fn lines(s: &str) -> usize {
	s.matches('\n').count()
}

pub fn emit(u: &Unit, repo: &Path) -> Out {
	let mut cache: HashMap<String, Result<Vec<syn::Item>, String>> = HashMap::new();
	let mut text = String::new();
	let mut fns = Vec::new();
	for p in &u.pieces {
		match p {
			Piece::Text(t) => text.push_str(t),
			Piece::Item { file, name, rules, attrs, mode } => {
				let its = cache.entry(file.clone()).or_insert_with(|| sel::items(&repo.join(file).to_string_lossy()));
				let lo = lines(&text) + 1;
				let mut lost = Vec::new();
				match its.as_ref().map_err(|e| e.clone()).and_then(|i| sel::find_item(i, name)) {
					Ok(it) => {
						let mut all = rules.clone();
						all.extend(u.rules.iter().cloned());
						match tx::item(it, &all, mode) {
							Ok(s) => {
								if !attrs.is_empty() {
									text.push_str(attrs);
									text.push('\n');
								}
								text.push_str(&s);
							}
							Err(e) => lost.push(e),
						}
						text.push('\n');
					}
					Err(e) => lost.push(e),
				}
				fns.push(FnOut {
					name: name.clone(),
					file: file.clone(),
					lo,
					hi: lines(&text) + 1,
					props: Vec::new(),
					lost,
					shape: Vec::new(),
					src: String::new(),
				});
			}
			Piece::Fn(d) => {
				let its = cache.entry(d.file.clone()).or_insert_with(|| sel::items(&repo.join(&d.file).to_string_lossy()));
				let label = {
					let base = if d.imp.is_empty() { d.name.clone() } else { format!("{}::{}", d.imp, d.name) };
					let base = if d.tr.is_empty() { base } else { format!("{} ({})", base, d.tr) };
					if d.rename.is_empty() {
						base
					} else {
						format!("{} as {}", base, d.rename)
					}
				};
				let lo = lines(&text) + 1;
				let (mut lost, mut shape, mut src) = (Vec::new(), Vec::new(), String::new());
				let mut from_default = false;
				let found = its.as_ref().map_err(|e| e.clone()).and_then(|i| {
					sel::find_fn(i, &d.imp, &d.tr, &d.args, &d.name).or_else(|e| {
						if d.default.is_empty() {
							return Err(e);
						}
						from_default = true;
						sel::find_fn(i, &d.default, "default", "", &d.name)
					})
				});
				match found {
					Ok(f) => {
						src = format!("{}:{}-{}", d.file, f.lines.0, f.lines.1);
						let mut rules = if from_default { d.drules.clone() } else { Vec::new() };
						rules.extend(d.rules.iter().cloned());
						rules.extend(u.rules.iter().cloned());
						let mut ts = apply(f.sig.to_token_stream(), &rules);
						let mut bs = apply(f.block.to_token_stream(), &rules);
						if !d.selfty.is_empty() {
							let r = [rule("self =>> this"), rule(&format!("Self =>> {}", d.selfty))];
							ts = apply(ts, &r[1..]);
							bs = apply(bs, &r);
						}
						match (syn::parse2::<syn::Signature>(ts), syn::parse2::<syn::Block>(bs)) {
							(Ok(sig), Ok(block)) => {
								let r = tx::function(u, d, sig, block);
								lost = r.lost;
								shape = r.shape;
								text.push_str(&r.text);
								text.push('\n');
							}
							(Err(e), _) | (_, Err(e)) => lost.push(format!("after the rewriting rules: {}", e)),
						}
					}
					Err(e) => lost.push(e),
				}
				fns.push(FnOut {
					name: label,
					file: d.file.clone(),
					lo,
					hi: lines(&text),
					props: d.props.clone(),
					lost,
					shape,
					src,
				});
			}
		}
	}
	Out { text, fns }
}
