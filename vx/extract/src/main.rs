//! Mechanical extraction of /repo/rstar/src into a Verus crate.
//! Usage: vx-extract --src DIR --contracts DIR --prelude DIR --out FILE --report FILE
mod anchors;
mod contracts;
mod emit;
mod inline;
mod names;
mod norm;
mod rules;

use std::collections::BTreeMap;
use std::path::Path;

fn main() {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < args.len() {
        a.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let src = Path::new(&a["src"]).to_path_buf();
    let mut report = emit::Report::default();
    if let Some(x) = a.get("aside") { report.aside = x.split('\n').map(String::from).collect() }
    if let Some(f) = a.get("names") { report.names = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap() }
    let mut out = String::new();
    out.push_str("// GENERATED by vx-extract from the current source. Do not edit.\n");
    out.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_labels, private_interfaces, private_bounds, unreachable_code, deprecated, mismatched_lifetime_syntaxes, type_alias_bounds, non_camel_case_types)]\n");
    out.push_str("#![feature(never_type)]\n".replace("#![feature(never_type)]\n", "").as_str());
    out.push_str("extern crate alloc;\nuse vstd::prelude::*;\n");
    out.push_str("verus! {\n");
    let mut files: Vec<_> = std::fs::read_dir(&a["prelude"]).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    files.sort();
    for f in files {
        out.push_str(&format!("// ---- prelude {}\n", f.file_name().unwrap().to_string_lossy()));
        out.push_str(&std::fs::read_to_string(&f).unwrap());
        out.push('\n');
    }
    let mut cfiles: Vec<_> = std::fs::read_dir(&a["contracts"]).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    cfiles.sort();
    if let Some(d) = a.get("more") {
        let mut m: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
        m.sort();
        cfiles.extend(m);
    }
    let expanded = a.get("expanded").map(|f| std::fs::read_to_string(f).unwrap());
    let mut modtree = emit::ModTree::default();
    for f in cfiles {
        let text = std::fs::read_to_string(&f).unwrap();
        let c = contracts::parse(&text, &f.to_string_lossy());
        let body = emit::emit_file(&src, expanded.as_deref(), &c, &mut report);
        let parts: Vec<&str> = c.module.split("::").collect();
        modtree.insert(&parts, body);
    }
    out.push_str(&modtree.render(0));
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&a["out"], out).unwrap();
    std::fs::write(&a["report"], serde_json::to_string_pretty(&report.to_json()).unwrap()).unwrap();
}
