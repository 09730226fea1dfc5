// a check is built with its own property only
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports, unused_macros))]
mod engine;
mod gen;
mod props_cli;
mod props_codec;
mod props_csv;
mod props_format;
mod props_index;
mod refcodec;
mod scratch;

use engine::{Ctx, Part};
use std::path::PathBuf;

/// known_findings.txt: `KNOWN property=C03 signature=<name> <text>` or `fixed: property=...`
fn findings(root: &std::path::Path, prop: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for line in std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("KNOWN ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let s = it.next().unwrap_or("").trim_start_matches("signature=");
            if p == prop {
                out.push((s.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    out
}
pub fn known_text(ctx: &Ctx, signature: &str) -> String {
    findings(&ctx.root, &ctx.prop).into_iter().find(|f| f.0 == signature).map(|f| f.1).unwrap_or_else(|| signature.to_string())
}

fn parts(prop: &str) -> Option<Vec<Part>> {
    Some(match prop {
        #[cfg(feature = "c01")]
        "C01" => props_codec::c01(),
        #[cfg(feature = "c02")]
        "C02" => props_codec::c02(),
        #[cfg(feature = "c03")]
        "C03" => props_codec::c03(),
        #[cfg(feature = "c04")]
        "C04" => props_codec::c04(),
        #[cfg(feature = "c05")]
        "C05" => props_codec::c05(),
        #[cfg(feature = "c06")]
        "C06" => props_codec::c06(),
        #[cfg(feature = "c07")]
        "C07" => props_format::c07(),
        #[cfg(feature = "c08")]
        "C08" => props_format::c08(),
        #[cfg(feature = "c09")]
        "C09" => props_format::c09(),
        #[cfg(feature = "c10")]
        "C10" => props_format::c10(),
        #[cfg(feature = "c11")]
        "C11" => props_format::c11(),
        #[cfg(feature = "c14")]
        "C14" => props_format::c14(),
        #[cfg(feature = "c15")]
        "C15" => props_format::c15(),
        #[cfg(feature = "c16")]
        "C16" => props_index::c16(),
        #[cfg(feature = "c17")]
        "C17" => props_index::c17(),
        #[cfg(feature = "c18")]
        "C18" => props_index::c18(),
        #[cfg(feature = "c19")]
        "C19" => props_csv::c19(),
        #[cfg(feature = "c20")]
        "C20" => props_cli::c20(),
        #[cfg(feature = "c21")]
        "C21" => props_cli::c21(),
        #[cfg(feature = "c22")]
        "C22" => props_cli::c22(),
        #[cfg(feature = "c23")]
        "C23" => props_cli::c23(),
        #[cfg(feature = "c12")]
        "C12" => props_codec::c12(),
        #[cfg(feature = "c13")]
        "C13" => props_codec::c13(),
        #[cfg(feature = "c25")]
        "C25" => props_cli::c25(),
        #[cfg(feature = "c27")]
        "C27" => props_cli::c27(),
        #[cfg(feature = "c28")]
        "C28" => props_codec::c28(),
        #[cfg(feature = "c29")]
        "C29" => props_codec::c29(),
        #[cfg(feature = "c30")]
        "C30" => props_codec::c30(),
        #[cfg(feature = "c31")]
        "C31" => props_index::c31(),
        #[cfg(feature = "c32")]
        "C32" => props_format::c32(),
        #[cfg(feature = "c33")]
        "C33" => props_codec::c33(),
        #[cfg(feature = "c34")]
        "C34" => props_codec::c34(),
        #[cfg(feature = "c26")]
        "C26" => props_cli::c26(),
        #[cfg(feature = "c24")]
        "C24" => props_codec::c24(),
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(prop) = args.first().cloned() else {
        eprintln!("usage: vharness Cxx [--replay FILE]");
        std::process::exit(2);
    };
    if prop == "--child" {
        engine::install_panic_hook();
        #[cfg(feature = "c10")]
        return props_format::child();
    }
    if prop == "--make-golden" {
        #[cfg(feature = "c09")]
        return props_format::make_golden();
    }
    if std::env::var_os("VERIF_SUPERVISED").is_none() {
        // nothing depends on where the machine stands; both processes see the same
        let zone = ["EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<-0330>3:30"][std::env::var("VERIF_SEED").map_or(1, |s| s.len() + s.bytes().map(usize::from).sum::<usize>()) % 3];
        std::env::set_var("TZ", zone);
    }
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let ctx = Ctx {
        prop: prop.clone(),
        tier_thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        seed,
        listed: findings(&root, &prop).into_iter().map(|f| f.0).collect(),
        root,
        workers: 8,
    };
    if std::env::var("VERIF_SUPERVISED").is_err() {
        std::process::exit(engine::supervise(&ctx, &args));
    }
    engine::install_panic_hook();
    let Some(parts) = parts(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    if args.get(1).is_some_and(|a| a == "--replay") {
        let file = args.get(2).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
        let name = v["part"].as_str().unwrap_or("");
        let part = parts.iter().find(|p| p.name == name).expect("part of the replay file");
        let (r, obs) = (part.replay)(&v["case"]);
        match r {
            Err(m) => {
                println!("{prop}/{name}: {m}");
                println!("VIOLATION property={prop} replay={file}");
                std::process::exit(1);
            }
            Ok(()) => {
                println!("{prop}/{name}: holds (known: {:?})", obs.known);
                std::process::exit(0);
            }
        }
    }
    // a run that does not end is an error of the check, not a verdict
    let limit = std::env::var("VERIF_WATCHDOG").ok().and_then(|s| s.parse().ok()).unwrap_or(if ctx.tier_thorough { 6 * 3600 } else { 780 });
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("ERROR: no verdict within {limit} s");
        std::process::exit(3);
    });
    let assumptions = vec![
        "series are finite (the planner removes NaN and infinities) and not empty",
        "single machine, default float environment",
    ];
    std::process::exit(engine::run_property(&ctx, parts, assumptions));
}
