//! Mechanical extraction of the compiler-expanded teleparse sources into a Verus file.
//!
//! usage: extract UNIT.json EXPANDED.rs OUT.rs REPORT.json [--opaque key]... [--instances FILE]
//!
//! The tool parses the output of `rustc -Zunpretty=expanded`, keeps the modules the unit asks for,
//! applies the dialect rules documented in DESIGN.md (all of them general, none mentions a body),
//! and weaves the specification overlays (requires/ensures/invariant/proof text, never executable
//! code) into the places they name.
mod dialect;
mod instances;
mod overlay;
mod weave;

use std::collections::{BTreeMap, BTreeSet};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let unit: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("unit")).expect("unit json");
    let base = std::path::Path::new(&args[1]).parent().unwrap().to_path_buf();
    let src = std::fs::read_to_string(&args[2]).expect("expanded");
    let mut opaque = BTreeSet::new();
    let mut smoke = false;
    let mut inst = None;
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--opaque" {
            opaque.insert(args[i + 1].clone());
            i += 2;
        } else if args[i] == "--instances" {
            inst = Some(std::fs::read_to_string(&args[i + 1]).expect("instances"));
            i += 2;
        } else if args[i] == "--smoke" {
            smoke = true;
            i += 1;
        } else {
            panic!("bad arg {}", args[i]);
        }
    }
    let list = |k: &str| -> Vec<String> {
        unit.get(k)
            .and_then(|v| v.as_array())
            .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
            .unwrap_or_default()
    };
    let mut ov = overlay::Overlay::default();
    for f in list("overlays") {
        let t = std::fs::read_to_string(base.join(&f)).unwrap_or_else(|e| panic!("{f}: {e}"));
        ov.parse(&f, &t);
    }
    let mut inst_mod = None;
    if let Some(t) = unit.get("instances").and_then(|v| v.as_str()) {
        let (m, facts) = instances::load(&inst.expect("--instances"));
        let t = std::fs::read_to_string(base.join(t)).expect("template");
        for f in &facts {
            ov.parse("instances", &instances::spec(&t, f));
        }
        inst_mod = Some(m);
    }
    for o in &opaque {
        ov.fns.entry(o.clone()).or_default().opaque = true;
        ov.fns.get_mut(o).unwrap().forced_opaque = true;
    }
    let mut file = syn::parse_file(&src).expect("cannot parse the expanded source");
    let mut cfg = weave::Cfg {
        keep_mods: list("modules"),
        drop: list("drop").into_iter().collect(),
        keep: list("keep").into_iter().collect(),
        drop_traits: list("drop_traits").into_iter().collect(),
        used_overlays: BTreeSet::new(),
        markers: Vec::new(),
        report: BTreeMap::new(),
        dropped: Vec::new(),
        lost: Vec::new(),
        opaque: list("opaque"),
        smoke,
    };
    weave::filter_file(&mut file, &mut cfg);
    file.items.extend(inst_mod);
    weave::materialize(&mut file, &list("materialize"));
    weave::prune_uses(&mut file, &ov);
    dialect::apply(&mut file, &list("rename"));
    weave::weave_file(&mut file, &mut cfg, &ov);
    let text = prettyplease::unparse(&file);
    let text = weave::substitute(&text, &cfg.markers);
    let mut out = String::new();
    out.push_str("#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces)]\n#![allow(private_interfaces, private_bounds, unreachable_code, unused_assignments, unused_must_use, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n");
    for f in list("shims") {
        let t = std::fs::read_to_string(base.join(&f)).unwrap_or_else(|e| panic!("{f}: {e}"));
        out.push_str(&format!("/*@fn shim:{f}*/\n"));
        out.push_str(&t);
        out.push('\n');
    }
    out.push_str(&text);
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&args[3], &out).expect("write");
    // overlays that found no function
    let mut lost: Vec<String> = cfg.lost.clone();
    for (k, s) in &ov.fns {
        if !cfg.used_overlays.contains(k) && !s.optional {
            lost.push(format!("{k}: no such function"));
        }
    }
    for k in ov.mods.keys().chain(ov.traits.keys()).chain(ov.impls.keys()) {
        if !cfg.used_overlays.contains(k) {
            lost.push(format!("{k}: no such item"));
        }
    }
    let rep = serde_json::json!({"functions": cfg.report, "dropped": cfg.dropped, "lost": lost});
    std::fs::write(&args[4], serde_json::to_string_pretty(&rep).unwrap()).expect("write report");
}
