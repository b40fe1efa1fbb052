mod c01;
mod c02;
mod c04;
mod c05;
mod c06;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c14;
mod c15;
mod c16;
mod c17;
mod c20;
mod c21;
mod c22;
mod c23;
mod fw;
mod num;
mod redzone;
mod slots;
mod tree;

use std::sync::Arc;

#[global_allocator]
static ALLOC: redzone::RedZone = redzone::RedZone;

fn dispatch(pid: &str, mc: &Arc<fw::Mc>) -> bool {
    match pid {
        "C01" => c01::run(mc),
        "C02" => c02::run(mc, true),
        "C03" => c02::run(mc, false),
        "C04" => c04::run(mc),
        "C05" => c05::run(mc),
        "C06" => c06::run(mc),
        "C07" => c06::run_batch(mc),
        "C08" => c08::run(mc),
        "C09" => c09::run(mc),
        "C10" => c10::run(mc),
        "C11" => c11::run(mc),
        "C12" => c12::run(mc, false),
        "C13" => c12::run(mc, true),
        "C14" => c14::run(mc),
        "C15" => c15::run(mc),
        "C16" => c16::run(mc),
        "C17" => c17::run(mc),
        "C21" => c21::run(mc),
        "C22" => c22::run(mc),
        "C23" => c23::run(mc),
        "C20" => c20::run(mc),
        _ => return false,
    }
    true
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let pid = args.first().cloned().unwrap_or_default();
    let has = |s: &str| args.iter().any(|a| a == s);
    let val = |s: &str| args.iter().position(|a| a == s).and_then(|i| args.get(i + 1).cloned());
    if !has("--worker") {
        std::process::exit(fw::supervise(&pid, &args));
    }
    let thorough = val("--tier").map(|t| t == "thorough").unwrap_or_else(|| std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"));
    let mc = fw::Mc::new(&pid, thorough, val("--only"), val("--trace").map(Into::into));
    if !dispatch(&pid, &mc) {
        println!("unknown property {pid}");
        std::process::exit(2);
    }
    mc.finish_and_exit();
}
