#![allow(unexpected_cfgs)]
use gv::util::*;

#[cfg(gv_guard)]
#[global_allocator]
static A: gv::guard::alloc::Guard = gv::guard::alloc::Guard;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let val = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let o = Opts {
        prop: a[1].clone(),
        seed: val("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        thorough: a.iter().any(|x| x == "--thorough"),
        shards: val("--shards").map(|s| s.parse().unwrap()).unwrap_or(8),
        out: val("--out").unwrap(),
        only: val("--only").map(|s| s.parse().unwrap()),
        behaviours: val("--behaviours"),
        scale: val("--scale").map(|s| s.parse().unwrap()).unwrap_or(1.0),
    };
    std::fs::create_dir_all(&o.out).unwrap();
    install_panic_hook();
    let st = match o.prop.as_str() {
        "C01" => gv::props_store::c01(&o),
        "C02" => gv::props_store::c02(&o),
        "C03" => gv::props_store::c03(&o),
        "C04" => gv::props_store::c04(&o),
        "C05" => gv::props_store::c05(&o),
        "C10" => gv::props_store::c10(&o),
        "C10trailer" => gv::props_format::c10_trailer(&o),
        "C09" => gv::props_format::c09(&o),
        "C13" => gv::props_format::c13(&o),
        "C14" => gv::props_format::c14(&o),
        "C14api" => gv::props_format::c14_api(&o),
        "C15" => gv::props_format::c15(&o),
        "C18" => gv::props_format::c18(&o),
        "C16" => gv::props_store::c16(&o),
        "C06" => gv::props_sorter::c06(&o),
        "C06wide" => gv::props_sorter::c06_wide(&o),
        "C07" => gv::props_sorter::c07(&o),
        "C08" => gv::props_sorter::c08(&o),
        "C17" => gv::props_mem::c17(&o),
        "C11" => gv::props_io::c11(&o),
        "C12" => gv::props_io::c12(&o),
        p if p.starts_with("fam") => gv::family::family(&o, &p[3..]),
        p => panic!("unknown property {}", p),
    };
    let extra: serde_json::Map<String, serde_json::Value> =
        st.extra.iter().map(|(k, v)| (k.clone(), (*v).into())).collect();
    let arith = gv::util::ARITH.lock().unwrap().clone();
    let j = serde_json::json!({
        "arith": arith,
        "scenarios": st.scenarios, "ops": st.ops, "lines": st.lines,
        "distinct": st.distinct.len(), "samples": st.samples, "extra": extra,
    });
    std::fs::write(format!("{}/stats.json", o.out), j.to_string()).unwrap();
}
