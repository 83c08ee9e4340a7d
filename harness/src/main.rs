mod cap;
mod ex;
mod fw;
mod p_ann;
mod p_compile;
mod p_solve;
use fw::*;

fn main() {
	let mut a = std::env::args().skip(1);
	let prop = a.next().expect("property");
	let (mut seed, mut thorough, mut out, mut only, mut repeat, mut secs, mut cur, mut threads) =
		(1u64, false, String::new(), None, 1u64, 60.0f64, None, 8usize);
	while let Some(k) = a.next() {
		let mut v = || a.next().expect("argument");
		match k.as_str() {
			"--seed" => seed = v().parse().unwrap(),
			"--tier" => thorough = v() == "thorough",
			"--out" => out = v(),
			"--family" => {
				let f = v();
				let i = a.next().unwrap().parse().unwrap();
				only = Some((f, i));
			}
			"--repeat" => repeat = v().parse().unwrap(),
			"--secs" => secs = v().parse().unwrap(),
			"--cur" => cur = Some(v()),
			"--threads" => threads = v().parse().unwrap(),
			_ => panic!("unknown argument {}", k),
		}
	}
	install_hook();
	let mut t = Ctx {
		prop: prop.clone(),
		seed,
		thorough,
		deadline: budget(secs),
		threads: if only.is_some() { 1 } else { threads },
		only,
		repeat,
		cur_dir: cur,
		evals: 0,
		cases: 0,
		truncated: false,
		distinct: Default::default(),
		samples: Vec::new(),
		families: Vec::new(),
		viol: None,
	};
	match prop.as_str() {
		"C01" => p_compile::c01(&mut t),
		"C02" => p_compile::c02(&mut t),
		"C03" => p_compile::c03(&mut t),
		"C04" => p_compile::c04(&mut t),
		"C05" => p_compile::c05(&mut t),
		"C06" => p_compile::c06(&mut t),
		"C07" => p_compile::c07(&mut t),
		"C08" => p_compile::c08(&mut t),
		"C09" => p_compile::c09(&mut t),
		"C10" => p_compile::c10(&mut t),
		"C11" => p_ann::c11(&mut t),
		"C12" => p_ann::c12(&mut t),
		"C13" => p_ann::c13(&mut t),
		"C14" => p_ann::c14(&mut t),
		"C15" => p_ann::c15(&mut t),
		"C16" => p_solve::c16(&mut t),
		"C17" => p_ann::c17(&mut t),
		"C18" => p_ann::c18(&mut t),
		"C19" => p_ann::c19(&mut t),
		"C20" => p_ann::c20(&mut t),
		"C21" => p_ann::c21(&mut t),
		"C22" => p_solve::c22(&mut t),
		p => {
			eprintln!("no such property: {}", p);
			std::process::exit(2);
		}
	}
	let fams: Vec<String> = t.families.iter().map(|(n, k)| format!("{{\"family\":{},\"cases\":{}}}", js(n), k)).collect();
	let smp: Vec<String> = t.samples.iter().take(6).map(|s| js(&s.chars().take(400).collect::<String>())).collect();
	let viol = match &t.viol {
		None => "null".to_string(),
		Some(v) => format!("{{\"family\":{},\"idx\":{},\"input\":{},\"message\":{}}}", js(&v.family), v.idx, js(&v.desc), js(&v.msg)),
	};
	let s = format!(
		"{{\"property\":{},\"seed\":{},\"evaluations\":{},\"cases\":{},\"distinct_nontrivial\":{},\"truncated\":{},\"families\":[{}],\"samples\":[{}],\"violation\":{}}}\n",
		js(&t.prop), t.seed, t.evals, t.cases, t.distinct.len(), t.truncated, fams.join(","), smp.join(","), viol
	);
	if out.is_empty() {
		print!("{}", s);
	} else {
		std::fs::write(&out, s).unwrap();
	}
	std::process::exit(if t.viol.is_some() { 1 } else { 0 });
}
