// One line per case: name, arguments, result.
fn lists(n: usize, of: &[&str]) -> Vec<Vec<String>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|l: &Vec<String>| of.iter().map(move |x| l.iter().cloned().chain([x.to_string()]).collect())).collect();
        out.extend(last.clone());
    }
    out
}

fn main() {
    for (name, f) in roots_std::table() {
        for v in lists(3, &["a", "b"]) {
            for w in lists(2, &["a", "b"]) {
                for k in ["a", "b", ""] {
                    println!("[{name:?},{v:?},{w:?},{k:?},{}]", f(v.clone(), w.clone(), k.to_string()));
                }
            }
        }
    }
}
