//! vx: extracts functions and types from the sources under test, rewrites the
//! constructs Verus has no support for by fixed rules (see DESIGN.md), places
//! the contracts of a unit file beside them and writes one Verus file.
mod mac;
mod rules;
mod sel;
mod tx;
mod unit;

use std::fmt::Write as _;

pub fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for ch in s.chars() {
		match ch {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 32 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn main() {
	let mut repo = "/repo".to_string();
	let (mut unit, mut out, mut meta) = (String::new(), String::new(), String::new());
	let mut a = std::env::args().skip(1);
	while let Some(k) = a.next() {
		let v = a.next().expect("argument");
		match k.as_str() {
			"--repo" => repo = v,
			"--unit" => unit = v,
			"--out" => out = v,
			"--meta" => meta = v,
			"--probe" => tx::PROBE.store(v == "yes", std::sync::atomic::Ordering::Relaxed),
			_ => panic!("unknown argument {}", k),
		}
	}
	let u = unit::read(std::path::Path::new(&unit));
	let r = unit::emit(&u, std::path::Path::new(&repo));
	std::fs::write(&out, &r.text).unwrap();
	let fns: Vec<String> = r
		.fns
		.iter()
		.map(|f| {
			format!(
				"{{\"name\":{},\"file\":{},\"lo\":{},\"hi\":{},\"props\":[{}],\"lost\":[{}],\"shape\":{},\"src_lines\":{}}}",
				js(&f.name),
				js(&f.file),
				f.lo,
				f.hi,
				f.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
				f.lost.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
				js(&f.shape.join(" ")),
				js(&f.src)
			)
		})
		.collect();
	std::fs::write(&meta, format!("{{\"unit\":{},\"functions\":[{}]}}\n", js(&u.name), fns.join(",\n"))).unwrap();
}
