mod fw;
mod mock;
mod motion;
mod props;
mod refmath;
mod wire;

#[global_allocator]
static ALLOC: props::mem::Counting = props::mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "rt-child" {
        std::process::exit(props::rt::child(&args[2..]));
    }
    // panics of the library are observed with catch_unwind; their messages are part of the verdict
    if std::env::var("VERIF_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let only = args.get(3).and_then(|s| s.parse().ok());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let dir = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let all = props::all();
    match all.iter().find(|p| p.id == id) {
        Some(p) => {
            let rc = fw::run(p, seed, &tier, only, &dir);
            std::process::exit(rc)
        }
        None => {
            eprintln!("unknown property {:?}; known: {}", id, all.iter().map(|p| p.id).collect::<Vec<_>>().join(" "));
            std::process::exit(2)
        }
    }
}
