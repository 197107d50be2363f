mod c19;
mod c20;
mod c28;
mod world;
use vf::*;

fn main() {
    let p = std::env::args().nth(1).unwrap_or_default();
    let mut r = Runner::from_args(&p);
    r.assume("nodes share this process, communicate over loopback TCP and share one in-memory storage; the minimum cluster size is configured to the number of nodes that form the cluster; ids of entities of different types differ");
    if p != "C28" {
        r.assume("the node of the coordinator stays");
    }
    match p.as_str() {
        "C19" => r.part(c19::Requests).finish(),
        "C20" => r.part(c20::Placement).part(c20::Cluster).finish(),
        "C28" => r.part(c28::Memory).finish(),
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
}
