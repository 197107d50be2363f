//! C25: what the HTTP API says against what is really there.
mod busy;
mod http;
mod metrics;
mod sharded;
mod system;
#[allow(dead_code)]
#[path = "../shard/world.rs"]
mod world;
use vf::*;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    let mut r = Runner::from_args(&p);
    r.assume("nodes and HTTP clients share this process and communicate over loopback TCP; answers are compared with the state while it does not change: it is read before and after the request, and the request is repeated when it changed");
    match p.as_str() {
        "C25" => r.part(system::System).part(busy::Busy).part(sharded::Sharded).finish(),
        "C27" => r.part(metrics::Metrics).finish(),
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
}
