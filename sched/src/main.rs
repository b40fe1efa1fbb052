//! Checks about the symbol tables: sequential histories (C18) and thread schedules (C19).
//! Built with --cfg symb_verif.
mod c18;
mod c19;
#[allow(dead_code)]
#[path = "../../harness/src/fw.rs"]
mod fw;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let pid = args.first().cloned().unwrap_or_default();
    let has = |s: &str| args.iter().any(|a| a == s);
    let val = |s: &str| args.iter().position(|a| a == s).and_then(|i| args.get(i + 1).cloned());
    if !has("--worker") {
        std::process::exit(fw::supervise(&pid, &args));
    }
    let thorough = val("--tier").map(|t| t == "thorough").unwrap_or_else(|| std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"));
    let mc = fw::Mc::new(&pid, thorough, val("--only"), val("--trace").map(Into::into));
    let part = fw::child();
    match (pid.as_str(), part) {
        ("C18" | "C19", None) => mc.processes(0..256, 256),
        ("C18", Some(p)) => c18::run(&mc, p),
        ("C19", Some(p)) => c19::run(&mc, p),
        _ => {
            println!("unknown property {pid}");
            std::process::exit(2);
        }
    }
    mc.finish_and_exit();
}
