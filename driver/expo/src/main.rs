//! Runs the real metriken-exposition crate: `driver-expo <property>`.
#[path = "../../common/ctx.rs"]
mod ctx;
mod convert;
mod file;
mod gen;
mod serial;
mod snapshotter;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = ctx::Ctx::new(&id);
    match id.as_str() {
        "C14" => snapshotter::run(&mut c),
        "C15" => file::names(&mut c),
        "C16" => file::schema(&mut c),
        "C17" => file::rows(&mut c),
        "C18" => convert::run(&mut c),
        "C19" => serial::run(&mut c),
        _ => panic!("unknown property {id}"),
    }
    c.finish();
}
