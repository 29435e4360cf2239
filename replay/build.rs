// the table of the harness's entry points, by name
use std::fmt::Write;
fn main() {
    let dir = format!("{}/../harness/src", std::env::var("CARGO_MANIFEST_DIR").unwrap());
    println!("cargo:rerun-if-changed={}", dir);
    let mut names = std::collections::BTreeSet::new();
    for e in std::fs::read_dir(&dir).unwrap() {
        let p = e.unwrap().path();
        println!("cargo:rerun-if-changed={}", p.display());
        let t = std::fs::read_to_string(&p).unwrap();
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
            if w(b[i]) {
                let mut j = i;
                while j < b.len() && w(b[j]) {
                    j += 1;
                }
                let s: String = b[i..j].iter().collect();
                if s.starts_with("h_p") || s == "h_init" {
                    names.insert(s);
                }
                i = j;
            } else {
                i += 1;
            }
        }
    }
    let mut o = String::new();
    writeln!(o, "extern \"C\" {{").unwrap();
    for n in &names {
        writeln!(o, "    #[link_name = \"{}\"] fn l_{}();", n, n).unwrap();
    }
    writeln!(o, "}}\npub fn call(n: &str) {{ unsafe {{ match n {{").unwrap();
    for n in &names {
        writeln!(o, "    \"{}\" => l_{}(),", n, n).unwrap();
    }
    writeln!(o, "    _ => panic!(\"no such entry point\") }} }} }}").unwrap();
    std::fs::write(format!("{}/table.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}
