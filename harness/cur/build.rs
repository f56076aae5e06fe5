fn main() {
    // lengths, closed under the splits that are offered
    let m = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 64, 127, 128];
    let mut s = String::from("cur! {\n");
    for n in m {
        s += &format!("{}: {};\n", n, (0..=n).filter(|l| m.contains(l) && m.contains(&(n - l))).map(|l| format!("({}, {})", l, n - l)).collect::<String>());
    }
    s += "}\nfn all(n: usize, p: &[Value]) -> Value {\n match n {\n";
    for n in m {
        s += &format!("{} => json!([{}]),\n", n, ["u8", "u32", "u128", "Rc", "Zst", "Odd"].map(|t| format!("run::<{}, {}>(p)", t, n)).join(", "));
    }
    s += "_ => panic!() } }";
    std::fs::write(format!("{}/cur.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
