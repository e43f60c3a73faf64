fn main() {
    vfcore::run::main_with(|case| match case.at("k").str() {
        "reader" => vfcore::reader::run(case),
        "norm" => vfcore::text::norm(case),
        "text" => assert!(vfcore::text::prims(case), "harness: type"),
        "write" => vfcore::writer::run(case),
        k => panic!("harness: kind {}", k),
    });
}
