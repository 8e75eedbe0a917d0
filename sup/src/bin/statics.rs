//! statics <ID> <tier> [replay-file]: checks that need no generated Rust code.
fn main() {
    let id = std::env::args().nth(1).expect("id");
    if !vlib::guard::supervised() {
        let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
        c.args(std::env::args().skip(1));
        std::process::exit(vlib::guard::run(&id, c));
    }
    let replay = std::env::args().nth(3).map(|f| {
        serde_json::from_str::<serde_json::Value>(&std::fs::read_to_string(f).expect("replay file")).expect("replay")
    });
    vlib::suite::quiet_panics();
    match id.as_str() {
        #[cfg(feature = "c03")]
        "C03" => sup::sel::c03(replay),
        #[cfg(feature = "c05")]
        "C05" => sup::att::c05(replay),
        #[cfg(feature = "c30")]
        "C30" => sup::nuscr::c30(replay),
        #[cfg(feature = "c40")]
        "C40" => sup::auto::c40(replay),
        #[cfg(feature = "c41")]
        "C41" => sup::auto::c41(replay),
        #[cfg(feature = "c50")]
        "C50" => sup::wire::c50(replay),
        #[cfg(feature = "c31")]
        "C31" => sup::nuscr::c31(replay),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
