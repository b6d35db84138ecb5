mod bridge;
mod client;
mod decode;
mod gen;
mod glue;
mod hist;
mod idl;
mod js;
mod mint;
mod model;
mod props;
mod published;
mod proxy;
mod types;

#[global_allocator]
static ALLOC: vm::SkewAlloc = vm::SkewAlloc;

fn main() {
    vm::init();
    let id = std::env::args().nth(1).unwrap_or_default();
    let dir = std::env::var("VP_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let Some((parts, meta)) = props::build(&id, thorough) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let code = pbt::main_check(&id, parts, meta, &dir);
    js::cleanup();
    std::process::exit(code);
}
