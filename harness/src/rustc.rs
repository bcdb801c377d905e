//! Compiling generated programs against the library.

use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

static NEXT: AtomicU32 = AtomicU32::new(0);

/// A directory that exists as long as this does.
pub struct Work(PathBuf);
impl Work {
    pub fn new() -> Work {
        let base = std::env::var("VH_WORK").expect("VH_WORK");
        let p = PathBuf::from(base).join(format!("{}-{}", std::process::id(), NEXT.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&p).expect("work directory");
        Work(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Work {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Compiled {
    pub ok: bool,
    /// lines with errors, and their messages
    pub errors: Vec<(usize, String)>,
}

/// Compile `source`; to an executable `out` in the directory if `run`, otherwise only check it.
pub fn compile(w: &Work, name: &str, source: &str, run: bool) -> Result<Compiled, String> {
    let src = w.path().join(format!("{name}.rs"));
    std::fs::write(&src, source).map_err(|e| e.to_string())?;
    let rlib = std::env::var("VH_RLIB").map_err(|_| "VH_RLIB is not set")?;
    let deps = Path::new(&rlib).parent().unwrap().to_path_buf();
    let mut c = Command::new("rustc");
    c.current_dir(w.path())
        .args(["--edition", "2021", "--error-format=json", "--cap-lints", "allow", "-C", "opt-level=0", "-C", "debuginfo=0"])
        .arg("--extern")
        .arg(format!("dumpster={rlib}"))
        .arg("-L")
        .arg(format!("dependency={}", deps.display()));
    if run {
        c.args(["--crate-type", "bin", "-o", name]);
    } else {
        c.args(["--crate-type", "lib", "--emit=metadata", "-o"]).arg(format!("lib{name}.rmeta"));
    }
    let o = c.arg(&src).stdin(Stdio::null()).output().map_err(|e| format!("rustc: {e}"))?;
    let mut errors = vec![];
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else {
            continue;
        };
        if v["level"] != "error" {
            continue;
        }
        let msg = v["message"].as_str().unwrap_or("").to_string();
        if msg.contains("internal compiler error") {
            return Err(msg);
        }
        for s in v["spans"].as_array().into_iter().flatten() {
            if s["is_primary"] == true {
                // within a macro, the place it was used
                let mut s = s;
                while s["expansion"].is_object() {
                    s = &s["expansion"]["span"];
                }
                errors.push((s["line_start"].as_u64().unwrap_or(0) as usize, msg.clone()));
            }
        }
    }
    let ok = o.status.success();
    if !ok && errors.is_empty() {
        return Err(format!("rustc failed: {}", String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>()));
    }
    Ok(Compiled { ok, errors })
}
