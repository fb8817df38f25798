//! Generates, compiles and runs enumerated programs.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;

/// One program: a module body with `pub fn check() -> R`.
pub struct Prog {
    pub group: String,
    /// identifies it within the group
    pub desc: String,
    pub code: String,
}
pub struct Outcome {
    pub group: String,
    pub desc: String,
    pub result: Result<u64, String>,
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()))
}
fn write_if_changed(p: &Path, s: &str) {
    if std::fs::read_to_string(p).ok().as_deref() != Some(s) {
        std::fs::write(p, s).expect("writing generated program");
    }
}

/// Phase of the parent process: compiles and runs the programs and leaves the outcomes in a file.
pub fn prepare(name: &str, header: &str, progs: &[Prog]) {
    let dir = root().join("target").join(name);
    let bins = dir.join("src/bin");
    std::fs::create_dir_all(&bins).unwrap();
    let verif = root();
    write_if_changed(
        &dir.join("Cargo.toml"),
        &format!(
            "[package]\nname = \"{name}gen\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[workspace]\n[dependencies]\nfacet = {{ path = \"/repo/facet\" }}\nfacet-core = {{ path = \"/repo/facet-core\" }}\nfacet-reflect = {{ path = \"/repo/facet-reflect\" }}\nmc = {{ path = \"{}/mc\" }}\n[profile.dev]\nopt-level = 1\ndebug = \"line-tables-only\"\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n[profile.dev.package.{name}gen]\nopt-level = 0\ndebug = 0\n",
            verif.display()
        ),
    );
    if !dir.join("Cargo.lock").exists() {
        std::fs::copy(verif.join("mc/Cargo.lock"), dir.join("Cargo.lock")).unwrap();
    }
    let nb = progs.len().div_ceil(350).max(8);
    // no left-overs of another tier
    for e in std::fs::read_dir(&bins).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        let b = n.trim_start_matches(&format!("{name}_b")).trim_end_matches(".rs").parse::<usize>();
        if !b.is_ok_and(|b| b < nb) {
            std::fs::remove_file(e.path()).unwrap();
        }
    }
    let mut failed: BTreeMap<usize, String> = BTreeMap::new();
    for round in 0.. {
        let mut at: Vec<Vec<(usize, usize)>> = vec![vec![]; nb]; // bin -> (first line, prog)
        for b in 0..nb {
            let mut s = String::new();
            writeln!(s, "#![allow(dead_code, unused, non_camel_case_types, non_snake_case, non_upper_case_globals)]").unwrap();
            writeln!(s, "{header}").unwrap();
            let mut lines = s.lines().count();
            let mut list = String::new();
            for (i, p) in progs.iter().enumerate() {
                if i % nb != b || failed.contains_key(&i) {
                    continue;
                }
                at[b].push((lines + 1, i));
                let m = format!("pub mod p{i} {{ use super::*;\n{}\n}}\n", p.code.trim_end());
                lines += m.lines().count();
                s.push_str(&m);
                write!(list, "({i}, p{i}::check as fn() -> R),").unwrap();
            }
            writeln!(s, "fn main() {{ mc::layout::run_all(&[{list}]) }}").unwrap();
            write_if_changed(&bins.join(format!("{name}_b{b}.rs")), &s);
        }
        let out = Command::new("cargo")
            .args(["build", "--offline", "--quiet", "--bins", "--keep-going", "--message-format=json"])
            .current_dir(&dir)
            .output()
            .expect("cargo");
        if out.status.success() {
            break;
        }
        // which programs do not compile?
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut other = BTreeSet::new();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            let m = &v["message"];
            if m["level"] != "error" {
                continue;
            }
            let text = m["message"].as_str().unwrap_or("").to_string();
            let mut hit = false;
            for sp in m["spans"].as_array().into_iter().flatten() {
                let file = sp["file_name"].as_str().unwrap_or("");
                let line = sp["line_start"].as_u64().unwrap_or(0) as usize;
                for b in 0..nb {
                    if file.ends_with(&format!("{name}_b{b}.rs")) {
                        if let Some((_, i)) = at[b].iter().rev().find(|(l, _)| *l <= line) {
                            bad.entry(*i).or_insert_with(|| text.clone());
                            hit = true;
                        }
                    }
                }
            }
            if !hit {
                other.insert(text);
            }
        }
        if bad.is_empty() || round > 6 {
            eprintln!("{}", String::from_utf8_lossy(&out.stderr));
            println!("generated programs do not compile: {other:?} {bad:?}");
            std::process::exit(2);
        }
        failed.extend(bad);
    }
    // run them
    let td = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or(verif.join("target").display().to_string()));
    let mut results: BTreeMap<usize, Result<u64, String>> = failed.into_iter().map(|(i, e)| (i, Err(format!("does not compile: {e}")))).collect();
    let handles: Vec<_> = (0..nb)
        .map(|b| {
            let exe = td.join("debug").join(format!("{name}_b{b}"));
            std::thread::spawn(move || {
                let mut from = 0usize;
                let mut out: Vec<(usize, Result<u64, String>)> = vec![];
                loop {
                    let o = Command::new("timeout").arg("120").arg(&exe).arg(from.to_string()).output().expect("generated program");
                    let text = String::from_utf8_lossy(&o.stdout).to_string();
                    let mut started = None;
                    for l in text.lines() {
                        let f: Vec<&str> = l.splitn(3, '\t').collect();
                        if f.len() != 3 {
                            continue;
                        }
                        let Ok(id) = f[0].parse::<usize>() else { continue };
                        match f[1] {
                            "START" => started = Some(id),
                            "OK" => {
                                out.push((id, Ok(f[2].parse().unwrap())));
                                from += 1;
                                started = None
                            }
                            "ERR" => {
                                out.push((id, Err(f[2].to_string())));
                                from += 1;
                                started = None
                            }
                            _ => {}
                        }
                    }
                    match started {
                        Some(id) => {
                            out.push((id, Err(format!("the program dies: {}", o.status))));
                            from += 1;
                        }
                        None if o.status.success() => return out,
                        None => {
                            return out;
                        }
                    }
                }
            })
        })
        .collect();
    for h in handles {
        results.extend(h.join().unwrap());
    }
    let list: Vec<serde_json::Value> = progs
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let (ok, n, e) = match results.get(&i) {
                Some(Ok(n)) => (true, *n, String::new()),
                Some(Err(e)) => (false, 0, e.clone()),
                None => (false, 0, "no result".to_string()),
            };
            serde_json::json!({"group": p.group, "desc": p.desc, "ok": ok, "n": n, "err": e})
        })
        .collect();
    std::fs::write(dir.join("results.json"), serde_json::to_string(&list).unwrap()).unwrap();
}

/// The outcomes `prepare` left.
pub fn outcomes(name: &str) -> Vec<Outcome> {
    let f = root().join("target").join(name).join("results.json");
    let s = std::fs::read_to_string(f).expect("results of the generated programs");
    let v: Vec<serde_json::Value> = serde_json::from_str(&s).unwrap();
    v.into_iter()
        .map(|v| Outcome {
            group: v["group"].as_str().unwrap().into(),
            desc: v["desc"].as_str().unwrap().into(),
            result: if v["ok"] == true { Ok(v["n"].as_u64().unwrap()) } else { Err(v["err"].as_str().unwrap().into()) },
        })
        .collect()
}
/// Is this the process that compiles, rather than a worker? And which tier?
pub fn parent() -> Option<bool> {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker" | "--describe") => None,
        Some("--replay") => Some(std::fs::read_to_string(&args[2]).is_ok_and(|s| s.contains("thorough"))),
        _ => Some(std::env::var("VERIF_TIER").as_deref() == Ok("thorough") || args.iter().any(|a| a == "--thorough")),
    }
}
