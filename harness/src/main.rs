//! Executable contracts over the public API of the real crates.
//!
//!   uvh run   --prop C01 --seed N --budget SECS --out FILE
//!   uvh replay FILE
//!
//! The script that is currently executing is always on disk (`--out` + ".cur"), so an
//! abort or a crash still leaves the failing input behind.
#![allow(incomplete_features, internal_features)]
#![feature(unsized_fn_params, ptr_metadata, allocator_api, unsize, layout_for_ptr, coerce_unsized)]
#![allow(static_mut_refs)]

mod elems;
mod r#gen;
mod scen;
mod track;
mod vecops;

use std::io::Write;

#[global_allocator]
static ALLOC: track::Track = track::Track;

use vecops::Op;

/// One executable input: a kind plus a script, or a named scenario with parameters.
#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    Script(&'static str, Vec<Op>),
    Scen(&'static str, [usize; 4]),
}
impl Case {
    pub fn text(&self) -> String {
        match self {
            Case::Script(k, ops) => {
                let mut s = format!("kind {k}\n");
                for o in ops {
                    s.push_str(&o.text());
                    s.push('\n');
                }
                s
            }
            Case::Scen(n, a) => format!("scenario {n} {} {} {} {}\n", a[0], a[1], a[2], a[3]),
        }
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut kind = None;
        let mut ops = vec![];
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some(k) = l.strip_prefix("kind ") {
                kind = Some(*r#gen::KINDS.iter().find(|x| **x == k)?);
            } else if let Some(r) = l.strip_prefix("scenario ") {
                let mut it = r.split_whitespace();
                let n = it.next()?;
                let n = scen::ALL.iter().find(|x| x.0 == n)?.0;
                let mut a = [0; 4];
                for (i, x) in it.enumerate() {
                    a[i] = x.parse().ok()?;
                }
                return Some(Case::Scen(n, a));
            } else {
                ops.push(Op::parse(l)?);
            }
        }
        Some(Case::Script(kind?, ops))
    }
    pub fn run(&self) -> Result<(), String> {
        match self {
            Case::Script(k, ops) => r#gen::run_kind(k, ops).map_err(|(i, m)| {
                let at = ops.get(i).map_or("end of script".to_string(), Op::text);
                format!("{m} -- at step {i} ({at})")
            }),
            Case::Scen(n, a) => {
                let f = scen::ALL.iter().find(|x| x.0 == *n).unwrap().1;
                scen::run(f, *a)
            }
        }
    }
}

pub struct CurFile(Option<std::fs::File>);
impl CurFile {
    fn put(&mut self, c: &Case) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut s = c.text();
            s.push_str("#END\n");
            let _ = f.write_all_at(s.as_bytes(), 0);
        }
    }
}

/// Does this failure break the property being checked?
fn tagged(m: &str, prop: &str) -> bool {
    if !m.starts_with('[') {
        return true;
    }
    let i = 0;
    let Some(j) = m[i..].find(']') else { return true };
    m[i + 1..i + j].split(' ').any(|t| t == prop)
}

/// A script whose failure does not need any fault does not break panic safety.
fn relevant(c: &Case, m: &str, prop: &str) -> bool {
    if !tagged(m, prop) {
        return false;
    }
    if prop == "C08" {
        use vecops::C;
        let Case::Script(k, ops) = c else { return true };
        let calm: Vec<Op> = ops.iter().filter(|o| !matches!(o.c, C::PushF | C::InsF | C::PopF | C::RemF | C::DropAll)).copied().collect();
        let r = r#gen::run_kind(k, &calm);
        return r.is_ok();
    }
    true
}

fn minimise(c: &Case, prop: &str) -> Case {
    let bad = |k: &'static str, o: &[Op]| matches!(r#gen::run_kind(k, o), Err((_, m)) if relevant(&Case::Script(k, o.to_vec()), &m, prop));
    let Case::Script(k, ops) = c else { return c.clone() };
    let mut ops = ops.clone();
    // The failing step ends the script.
    if let Err((i, _)) = r#gen::run_kind(k, &ops) {
        ops.truncate(i + 1);
        if !bad(k, &ops) {
            return c.clone();
        }
    }
    let mut again = true;
    while again {
        again = false;
        let mut i = 0;
        while i < ops.len() {
            let mut o2 = ops.clone();
            o2.remove(i);
            if bad(k, &o2) {
                ops = o2;
                again = true;
            } else {
                i += 1;
            }
        }
    }
    Case::Script(k, ops)
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(String::as_str) {
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let t = t.split("#END").next().unwrap();
            let Some(c) = Case::parse(t) else {
                eprintln!("unparsable replay file");
                std::process::exit(2);
            };
            match c.run() {
                Ok(()) => println!("PASS"),
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("run") => {
            let prop = get("--prop").expect("--prop");
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(10.0);
            let out = get("--out").expect("--out");
            let known: Vec<String> = get("--known").map(|p| std::fs::read_to_string(p).unwrap_or_default().lines().map(str::to_string).collect()).unwrap_or_default();
            let mut cur = CurFile(std::fs::File::create(format!("{out}.cur")).ok());
            let t0 = std::time::Instant::now();
            let mut n = 0u64;
            let mut steps = 0u64;
            let mut fail: Option<(Case, String)> = None;
            let (enumerated, random) = r#gen::drive(&prop, seed, &mut |c: &Case| {
                cur.put(c);
                n += 1;
                if let Case::Script(_, o) = c {
                    steps += o.len() as u64;
                } else {
                    steps += 1;
                }
                if let Err(m) = c.run() {
                    if relevant(c, &m, &prop) && !known.iter().any(|k| !k.is_empty() && m.contains(k.as_str())) {
                        fail = Some((c.clone(), m));
                        return false;
                    }
                }
                t0.elapsed().as_secs_f64() < budget
            });
            let mut f = std::fs::File::create(&out).unwrap();
            if let Some((c, m)) = fail {
                let c2 = minimise(&c, &prop);
                let m2 = c2.run().err().unwrap_or(m);
                writeln!(f, "# property {prop}\n# {}\n{}", m2.replace('\n', " "), c2.text()).unwrap();
                println!("FAIL {}", m2.replace('\n', " "));
                println!("{}", c2.text());
                std::process::exit(1);
            }
            println!("PASS cases={n} steps={steps} enumerated={enumerated} random={random} seconds={:.1}", t0.elapsed().as_secs_f64());
        }
        _ => {
            eprintln!("usage: uvh run|replay");
            std::process::exit(2);
        }
    }
}
