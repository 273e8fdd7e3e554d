//! Property-based checks of ti-tools.

pub mod cli;
pub mod engine;
pub mod gen;
pub mod oracle;
pub mod p1;
pub mod p2;
pub mod p3;
pub mod p4;
pub mod p5;
pub mod p6;
pub mod p7;
pub mod p8;
pub mod p9;
pub mod p10;
pub mod p11;

use engine::{Property, Tier};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

pub fn cleanup_and_exit(code: i32) -> ! {
    let p = SCRATCH.lock().map(|mut s| s.take()).unwrap_or(None);
    if let Some(p) = p {
        if p.is_absolute() && p.file_name().map_or(false, |n| n.to_string_lossy().starts_with("ti-verif-")) {
            let _ = std::fs::remove_dir_all(&p);
        }
    }
    std::process::exit(code)
}

fn fail(m: String) -> ! {
    eprintln!("ERROR: {m}");
    cleanup_and_exit(2)
}

/// A scratch directory that the unprivileged user can reach, in memory where possible.
fn make_scratch() -> PathBuf {
    let name = format!("ti-verif-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.subsec_nanos()));
    for base in ["/dev/shm", "/tmp"] {
        let p = Path::new(base).join(&name);
        if std::fs::create_dir(&p).is_ok() {
            if std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).is_ok() {
                *SCRATCH.lock().unwrap() = Some(p.clone());
                return p;
            }
        }
    }
    fail("cannot make a scratch directory".into())
}

fn env_path(k: &str) -> Option<PathBuf> {
    std::env::var_os(k).map(PathBuf::from)
}

/// Entry point of the check binaries: `run ID [SUB]`, `replay FILE`, `list`.
pub fn main_with(properties: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = env_path("VERIF_DIR").unwrap_or_else(|| fail("VERIF_DIR is not set".into()));
    let bin = env_path("TI_BIN").unwrap_or_else(|| fail("TI_BIN is not set".into()));
    let scratch = make_scratch();
    std::panic::set_hook(Box::new(|_| {}));
    let copy = |from: &Path, name: &str| -> PathBuf {
        let to = scratch.join(name);
        if let Err(e) = std::fs::copy(from, &to).and_then(|_| std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755))) {
            fail(format!("{from:?}: {e}"));
        }
        to
    };
    let env = cli::Env {
        bin: copy(&bin, "ti-tools"),
        shim: env_path("TI_SHIM").map(|p| copy(&p, "shim.so")),
        driver: env_path("TI_DRIVER").map(|p| copy(&p, "driver")),
        scratch: scratch.clone(),
        drop_uid: unsafe { libc::geteuid() } == 0,
    };
    cli::start_watchdog();
    let tier = Tier {
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        every: std::env::var("VERIF_EVERY").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    let find = |id: &str| properties.iter().find(|p| p.id == id).unwrap_or_else(|| fail(format!("no property {id} here")));
    match args.first().map(|s| s.as_str()) {
        Some("run") if args.len() >= 2 => {
            let mut tier = tier;
            if !tier.thorough && !["C13", "C14", "C18", "C24"].contains(&args[1].as_str()) {
                tier.scale *= 2.5;
            }
            let code = engine::run_property(find(&args[1]), &env, &tier, &verif, args.get(2).map(|s| s.as_str()));
            cleanup_and_exit(code)
        }
        Some("replay") if args.len() == 2 => {
            let text = std::fs::read_to_string(&args[1]).unwrap_or_else(|e| fail(format!("{}: {e}", args[1])));
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_else(|e| fail(format!("{}: {e}", args[1])));
            let p = find(v["property"].as_str().unwrap_or(""));
            let name = v["sub_check"].as_str().unwrap_or("");
            let sub = p.subs.iter().find(|s| s.name == name).unwrap_or_else(|| fail(format!("no sub-check {name}")));
            match (sub.replay)(&env, &v["case"]) {
                Ok(o) => {
                    println!("{}: {}: holds on this case {:?}", p.id, name, o.labels);
                    cleanup_and_exit(0)
                }
                Err(m) => {
                    println!("{}: {}: {m}", p.id, name);
                    println!("VIOLATION property={} replay={}", p.id, args[1]);
                    cleanup_and_exit(1)
                }
            }
        }
        Some("list") => {
            for p in &properties {
                for s in &p.subs {
                    println!("{} {}: {}", p.id, s.name, s.rule);
                }
            }
            cleanup_and_exit(0)
        }
        _ => fail("usage: run ID [SUB] | replay FILE | list".into()),
    }
}

pub fn all() -> Vec<Property> {
    vec![p1::c01(), p1::c02(), p1::c03(), p1::c04(), p1::c05(), p1::c06(), p1::c07(), p1::c08(), p2::c09(), p2::c10_property(), p2::c11_property(), p2::c12_property(), p2::c15(), p2::c16_property(), p2::c17_property(), p3::c13(), p3::c14_property(), p5::c18_property(), p4::c19_property(), p4::c20_property(), p4::c21_property(), p4::c22_property(), p4::c23_property(), p4::c24_property(), p5::c25_property(), p4::c26_property(), p6::c27_property(), p7::c28_property(), p7::c29_property(), p8::c30_property(), p8::c31_property(), p9::c32_property(), p10::c33_property(), p11::c34_property()]
}
