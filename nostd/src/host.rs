fn main() {
    let a: Vec<u64> = std::env::args().skip(1).filter_map(|x| x.parse().ok()).collect();
    for case in 0..a[1] {
        let mut s = nostd::Seen::default();
        nostd::run_case(a[0], case, &mut s);
        if let Some(f) = s.fail {
            println!("FAIL {case} {f}");
            std::process::exit(10);
        }
        print!("{}", nostd::line(case, &s));
    }
    println!("done");
}
