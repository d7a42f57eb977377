mod fx;
mod gen;
mod model;
mod props;
mod rng;
mod tool;
mod run;
mod util;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    run::install_panic_hook();
    #[cfg(feature = "det")]
    if id == "--job" {
        let args: Vec<String> = std::env::args().skip(2).collect();
        return props::det::child(&args);
    }
    #[cfg(feature = "det")]
    if id == "--tiny" {
        return props::det::c21_tiny();
    }
    let mut c = run::Ctx::new(&id);
    match id.as_str() {
        "C01" => props::lib_core::c01(&mut c),
        "C02" => props::lib_core::c02(&mut c),
        #[cfg(feature = "changes")]
        "C03" => props::lib_changes::c03(&mut c),
        #[cfg(feature = "changes")]
        "C04" => props::lib_changes::c04(&mut c),
        #[cfg(feature = "changes")]
        "C05" => props::lib_changes::c05(&mut c),
        "C06" => props::lib_io::c06(&mut c),
        "C12" => props::lib_io::c12(&mut c),
        #[cfg(feature = "unified")]
        "C17" => props::unified::c17(&mut c),
        #[cfg(feature = "unified")]
        "C18" => props::unified::c18(&mut c),
        #[cfg(feature = "unified")]
        "C19" => props::unified::c19(&mut c),
        #[cfg(feature = "unified")]
        "C20" => props::unified::c20(&mut c),
        #[cfg(feature = "cli")]
        "C13" => props::cli::c13(&mut c),
        #[cfg(feature = "cli")]
        "C14" => props::cli::c14(&mut c),
        #[cfg(feature = "cli")]
        "C15" => props::cli::c15(&mut c),
        #[cfg(feature = "cli")]
        "C16" => props::cli::c16(&mut c),
        #[cfg(feature = "cmds")]
        "C22" => props::cmds::c22(&mut c),
        #[cfg(feature = "cmds")]
        "C23" => props::cmds::c23(&mut c),
        #[cfg(feature = "views")]
        "C24" => props::views::c24(&mut c),
        #[cfg(feature = "views")]
        "C25" => props::views::c25(&mut c),
        #[cfg(feature = "det")]
        "C21" => props::det::c21(&mut c),
        #[cfg(feature = "det")]
        "C21-race" => props::det::c21_race(&mut c),
        #[cfg(feature = "apply")]
        "C07" => props::lib_apply::c07(&mut c),
        #[cfg(feature = "apply")]
        "C08" => props::lib_apply::c08(&mut c),
        #[cfg(feature = "apply")]
        "C09" => props::lib_apply::c09(&mut c),
        #[cfg(feature = "apply")]
        "C10" => props::lib_apply::c10(&mut c),
        #[cfg(feature = "apply")]
        "C11" => props::lib_apply::c11(&mut c),
        _ => {
            eprintln!("unknown property {id:?}");
            std::process::exit(2);
        }
    }
    std::process::exit(c.report());
}
