//! Runs the real metriken crates: `driver-core <property>`.
#[path = "../../common/ctx.rs"]
mod ctx;
mod builder;
mod hist;
mod iter;
mod lazy;
mod meta;
mod num;
mod registry;
mod request;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = ctx::Ctx::new(&id);
    match id.as_str() {
        "C01" => num::counter(&mut c),
        "C02" => num::gauge(&mut c),
        "C03" => lazy::run(&mut c),
        "C04" => hist::atomic(&mut c),
        "C05" => hist::bulk(&mut c),
        "C06" => registry::run(&mut c),
        "C07" => iter::run(&mut c),
        "C08" => request::run(&mut c),
        "C09" => registry::transparent(&mut c),
        "C10" => meta::run(&mut c),
        "C11" => builder::run(&mut c),
        "C12" => meta::formatter(&mut c),
        _ => panic!("unknown property {id}"),
    }
    c.finish();
}
