use std::{
    collections::{BTreeSet, HashMap},
    path::{Path, PathBuf},
    process::Command,
};

/// What became of one item (an enum in a module of its own).
#[derive(Clone, Debug)]
pub enum Out {
    /// Lines the compiled item printed.
    Ran(Vec<String>),
    /// Compiler errors attributed to the item: (error code or "", message).
    Rejected(Vec<(String, String)>),
}

pub struct Item {
    /// Contents of the module (the enum and whatever it needs).
    pub code: String,
    /// Statements that print; run only if the item compiles. `m` is the module's name.
    pub report: String,
}

pub struct Host {
    pub dir: PathBuf,
    externs: Vec<(String, PathBuf)>,
    deps: PathBuf,
}

impl Host {
    pub fn new(tag: &str) -> Host {
        let dir = std::env::temp_dir().join(format!("mc-{tag}-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        // The macro as cargo built it from /repo for this very run.
        let out = Command::new("cargo")
            .args(["build", "--offline", "--locked", "--message-format=json", "-q"])
            .current_dir(mccore::verif_dir().join("mc-codegen"))
            .output()
            .expect("cargo");
        let mut externs = vec![];
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let n = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if n == "grib_codegen" || n == "enumdump" {
                for f in v["filenames"].as_array().unwrap() {
                    let f = PathBuf::from(f.as_str().unwrap());
                    if f.extension().is_some_and(|e| e == "so") {
                        externs.push((n.clone(), f));
                    }
                }
            }
        }
        if externs.len() != 2 {
            mccore::engine_error(&format!(
                "macro artefacts not found: {externs:?} {}",
                String::from_utf8_lossy(&out.stderr)
            ));
        }
        let deps = externs[0].1.parent().unwrap().to_path_buf();
        Host { dir, externs, deps }
    }

    pub fn file(&self, name: &str, text: &[u8]) -> String {
        let p = self.dir.join(name);
        std::fs::write(&p, text).unwrap();
        p.display().to_string()
    }

    /// Compiles and runs all items, in crates of `per` items, several at a time.
    pub fn run(&self, items: &[Item], per: usize) -> Vec<Out> {
        let chunks: Vec<(usize, &[Item])> = items.chunks(per).enumerate().map(|(i, c)| (i * per, c)).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res: std::sync::Mutex<HashMap<usize, Vec<Out>>> = Default::default();
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some((base, chunk)) = chunks.get(i) else { break };
                    let o = self.run_crate(&format!("b{base}"), chunk);
                    res.lock().unwrap().insert(*base, o);
                });
            }
        });
        let mut m = res.into_inner().unwrap();
        chunks.iter().flat_map(|(b, _)| m.remove(b).unwrap()).collect()
    }

    fn run_crate(&self, tag: &str, items: &[Item]) -> Vec<Out> {
        let mut rejected: HashMap<usize, Vec<(String, String)>> = HashMap::new();
        let mut live: BTreeSet<usize> = (0..items.len()).collect();
        let src = self.dir.join(format!("{tag}.rs"));
        let exe = self.dir.join(format!("{tag}.bin"));
        loop {
            let mut text = String::from("#![allow(warnings)]\n");
            let mut line = 1;
            let mut range = vec![];
            for &k in &live {
                let m = format!("mod m{k} {{\n{}\n}}\n", items[k].code);
                let n = m.matches('\n').count();
                range.push((line + 1, line + n, k));
                line += n;
                text += &m;
            }
            // one reporting function per item, so that errors in it are attributed too
            for &k in &live {
                let f = format!(
                    "fn r{k}() {{ use m{k} as m;\n{}\n}}\n",
                    items[k].report
                );
                let n = f.matches('\n').count();
                range.push((line + 1, line + n, k));
                line += n;
                text += &f;
            }
            text += "fn main() {\n";
            for &k in &live {
                text += &format!("println!(\"@{k}\"); r{k}();\n");
            }
            text += "}\n";
            std::fs::write(&src, &text).unwrap();
            let mut c = Command::new("rustc");
            c.args(["--edition=2021", "--error-format=json", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=1"])
                .arg("-L")
                .arg(&self.deps)
                .arg("-o")
                .arg(&exe)
                .arg(&src);
            for (n, p) in &self.externs {
                c.arg("--extern").arg(format!("{n}={}", p.display()));
            }
            let out = c.output().expect("rustc");
            if out.status.success() {
                break;
            }
            let mut bad: HashMap<usize, Vec<(String, String)>> = HashMap::new();
            for l in String::from_utf8_lossy(&out.stderr).lines() {
                let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
                if v["level"] != "error" {
                    continue;
                }
                let code = v["code"]["code"].as_str().unwrap_or("").to_string();
                let msg = v["message"].as_str().unwrap_or("").to_string();
                let mut lines = vec![];
                spans(&v["spans"], src.to_str().unwrap(), &mut lines);
                for (a, b, k) in &range {
                    if lines.iter().any(|l| a <= l && l <= b) {
                        bad.entry(*k).or_default().push((code.clone(), msg.clone()));
                        break;
                    }
                }
            }
            if bad.is_empty() {
                mccore::engine_error(&format!(
                    "rustc failed without a located error: {}",
                    String::from_utf8_lossy(&out.stderr).chars().take(3000).collect::<String>()
                ));
            }
            for (k, e) in bad {
                live.remove(&k);
                rejected.insert(k, e);
            }
        }
        let out = Command::new(&exe).output().expect("generated program");
        let mut ran: HashMap<usize, Vec<String>> = HashMap::new();
        let mut cur = usize::MAX;
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            if let Some(k) = l.strip_prefix('@') {
                cur = k.parse().unwrap();
                ran.insert(cur, vec![]);
            } else {
                ran.get_mut(&cur).unwrap().push(l.to_string());
            }
        }
        if !out.status.success() {
            // the item that was running last did it
            ran.get_mut(&cur).map(|v| v.push(format!("DIED {}", String::from_utf8_lossy(&out.stderr))));
        }
        let _ = std::fs::remove_file(&src);
        let _ = std::fs::remove_file(&exe);
        (0..items.len())
            .map(|k| match rejected.remove(&k) {
                Some(e) => Out::Rejected(e),
                None => Out::Ran(ran.remove(&k).unwrap_or_default()),
            })
            .collect()
    }
}
impl Drop for Host {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn spans(v: &serde_json::Value, file: &str, out: &mut Vec<usize>) {
    for s in v.as_array().into_iter().flatten() {
        if s["file_name"].as_str().map(Path::new) == Some(Path::new(file)) {
            out.push(s["line_start"].as_u64().unwrap_or(0) as usize);
        }
        if s["expansion"].is_object() {
            spans(&serde_json::Value::Array(vec![s["expansion"]["span"].clone()]), file, out);
        }
    }
}
