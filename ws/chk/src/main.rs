#![allow(clippy::all)]
mod prog;
mod int;
mod p_bn;
mod rep;
mod p_compile;
mod p_layered;
mod p_io;
mod p_passes;
mod p_api;
mod p_mem;
mod p_zk;
mod p_sha;
mod p_std;
mod p_pos;
mod pf;
mod xag;
use std::time::Duration;
fn main() {
    let av: Vec<String> = std::env::args().collect();
    let get = |k: &str| av.iter().position(|x| x == k).map(|i| av[i + 1].clone());
    if !av.iter().any(|x| x == "--child") {
        std::process::exit(rep::supervise(&av));
    }
    // runaway allocation ends in an abort that the supervisor attributes, not in the sandbox's memory guard
    let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let tier = if get("--tier").as_deref() == Some("thorough") { rep::Tier::Thorough } else { rep::Tier::Quick };
    let id = av[1].clone();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verbose = av.iter().any(|x| x == "-v");
    let a = rep::Args {
        env: rep::Env { tier, seed },
        evidence: get("--evidence").unwrap_or(format!("/tmp/{id}.json")),
        replay_dir: get("--replays").unwrap_or("/tmp/replays".into()),
        only: get("--case"),
        budget: Duration::from_secs(get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == rep::Tier::Quick { 150 } else { 600 })),
        known: get("--known").unwrap_or("/verif/known_findings.json".into()),
        verbose,
        current: get("--current"),
    };
    if !av.iter().any(|x| x == "--panics") {
        std::panic::set_hook(Box::new(|_| {}));
    }
    rep::silence_stdout();
    let mut props: Vec<rep::Prop> = vec![];
    props.extend(p_compile::props());
    props.extend(p_layered::props());
    props.extend(p_io::props());
    props.extend(p_passes::props());
    props.extend(p_api::props());
    props.extend(p_zk::props());
    props.extend(p_mem::props());
    props.extend(p_sha::props());
    props.extend(p_std::props());
    props.extend(p_pos::props());
    props.extend(p_bn::props());
    let Some(p) = props.iter().find(|p| p.id == id) else {
        rep::say(&format!("unknown property {id}"));
        std::process::exit(2);
    };
    std::process::exit(rep::run(p, &a));
}
