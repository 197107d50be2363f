mod heal;
mod cuts;
macro_rules! props {
    ($($m:ident $id:literal),*) => {
        $(mod $m;)*
        fn main() {
            let p = std::env::args().nth(1).unwrap_or_default();
            match p.as_str() {
                $($id => $m::run(),)*
                _ => {
                    eprintln!("unknown property {p}");
                    std::process::exit(2);
                }
            }
        }
    };
}
props!(c15 "C15", c16 "C16", c17 "C17", c18 "C18", c22 "C22", c23 "C23", c24 "C24");
