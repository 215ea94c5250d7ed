use std::{env, fs, path::Path};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let src = Path::new("../src");
    let mut e = String::from("static ENTRIES: &[(&str, extern \"C\" fn())] = &[\n");
    for f in fs::read_dir(src).unwrap() {
        let f = f.unwrap().path();
        println!("cargo:rerun-if-changed={}", f.display());
        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
        let t = fs::read_to_string(&f).unwrap();
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("pub extern \"C\" fn ") {
                let n = r.split('(').next().unwrap();
                e += &format!("    (\"{n}\", {m}::{n}),\n");
            }
        }
    }
    e += "];\n";
    fs::write(Path::new(&out).join("entries.rs"), e).unwrap();
}
