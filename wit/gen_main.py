import glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
ms = sorted(os.path.basename(f)[:-3] for f in glob.glob("src/c[0-9][0-9].rs"))
o = "#![allow(dead_code)]\nmod core;\n"
for m in ms: o += f'#[cfg(feature = "{m}")]\nmod {m};\n'
o += """fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = crate::core::Ctx::new(a[2].parse().unwrap_or(1), a[3] == "thorough");
    match a[1].as_str() {
"""
for m in ms: o += f'        #[cfg(feature = "{m}")]\n        "{m}" => {m}::run(&mut c),\n'
o += """        o => panic!("unknown property {o}"),
    }
    c.finish();
}
"""
open("src/main.rs", "w").write(o)
