mod ctx; mod export; mod gen; mod prog; mod rng; mod symbols;
mod c_circuit; mod c_pass; mod c_view; mod c_sys; mod c_search; mod c_hash; mod c_match; mod c_rewrite; mod c_badger; mod c_scope; mod c_mod; mod pk; mod c_pytket; mod c_param; mod c_encode; mod c_store; mod c_names; mod c_qis;
use ctx::Ctx;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, seed, out) = (a[1].clone(), a[2].as_str(), a[3].parse::<u64>().unwrap_or(1), std::path::PathBuf::from(&a[4]));
    ctx::install_hook();
    let mut c = Ctx { prop: prop.clone(), thorough: tier == "thorough", seed, out, cases: vec![], limit: 20000, infos: vec![], stats: Default::default(), file: 0, jobs: vec![] };
    match prop.as_str() {
        "C01" => c_badger::c01(&mut c),
        "C02" => c_badger::c02(&mut c),
        "C03" => c_rewrite::c03(&mut c),
        "C04" => c_match::c04(&mut c),
        "C05" => c_search::c05(&mut c),
        "C06" => c_search::c06(&mut c),
        "C07" => c_search::c07(&mut c),
        "C08" => c_hash::c08(&mut c),
        "C09" => c_circuit::c09(&mut c),
        "C10" => c_view::c10(&mut c),
        "C11" => c_circuit::c11(&mut c),
        "C12" => c_pass::c12(&mut c),
        "C13" => c_pass::c13(&mut c),
        "C14" => c_mod::c14(&mut c),
        "C15" => c_scope::c15(&mut c),
        "C16" => c_scope::c16(&mut c),
        "C17" => c_view::c17(&mut c),
        "C20" => c_encode::c20(&mut c),
        "C22" => c_encode::c22(&mut c),
        "C21" => c_pytket::c21(&mut c),
        "C23" => c_param::c23(&mut c),
        "C40" => c_names::c40(&mut c),
        "C41" => c_store::c41(&mut c),
        "C30" => c_sys::c30(&mut c),
        "C31" => c_sys::c31(&mut c),
        "C32" => c_sys::c32(&mut c),
        "C35" => c_qis::c35(&mut c),
        "C38" => c_qis::c38(&mut c),
        "C33" => c_sys::c33(&mut c),
        "C34" => c_sys::c34(&mut c),
        p => { eprintln!("no check {p}"); std::process::exit(2) }
    }
    c.finish();
}
