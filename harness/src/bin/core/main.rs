macro_rules! props {
    ($($m:ident $id:literal),*) => {
        $(mod $m;)*
        fn main() {
            let p = std::env::args().nth(1).unwrap_or_default();
            match p.as_str() {
                $($id => $m::run(),)*
                _ => {
                    eprintln!("unknown property {p}");
                    std::process::exit(2);
                }
            }
        }
    };
}
props!(c01 "C01", c02 "C02", c03 "C03", c04 "C04", c05 "C05", c06 "C06", c07 "C07", c08 "C08", c09 "C09", c26 "C26");
