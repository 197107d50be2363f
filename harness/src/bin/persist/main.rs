mod store;
macro_rules! props {
    ($($m:ident $id:literal),*) => {
        $(mod $m;)*
        fn main() {
            let p = std::env::args().nth(1).unwrap_or_default();
            match p.as_str() {
                $($id => $m::run(),)*
                _ => {
                    eprintln!("unknown property {p}");
                    std::process::exit(2);
                }
            }
        }
    };
}
props!(c10 "C10", c11 "C11", c12 "C12");
