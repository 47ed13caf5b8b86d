mod bidi;
mod cli;
mod conc;
mod configs;
mod cross;
mod ctx;
mod data;
mod dump;
mod gen;
mod laws;
mod idna;
mod names;
mod normal;
mod ops;
mod refdata;
mod range;
mod rng;
mod san;
mod seg;
mod total;
mod vals;

fn run(prop: &str, ctx: &ctx::Ctx) -> bool {
    match prop {
        "C01" => data::c01(ctx),
        "C02" => data::c02(ctx),
        "C03" => data::c03(ctx),
        "C04" => data::c04(ctx),
        "C05" => data::c05(ctx),
        "C06" => data::c06(ctx),
        "C07" => data::c07(ctx),
        "C08" => data::c08(ctx),
        "C09" => data::c09(ctx),
        "C11" => range::c11(ctx),
        "C12" => range::c12(ctx),
        "C13" => range::c13(ctx),
        "C14" => range::c14(ctx),
        "C15" => range::c15(ctx),
        "C16" => normal::c16(ctx),
        "C17" => normal::c17(ctx),
        "C27" => idna::c27(ctx),
        "C29" => idna::c29(ctx),
        "C10" => names::c10(ctx),
        "C26" => names::c26(ctx),
        "C28" => data::c28(ctx),
        "C18" => seg::c18(ctx),
        "C19" => seg::c19(ctx),
        "C20" => seg::c20(ctx),
        "C21" => seg::c21(ctx),
        "C22" => seg::c22(ctx),
        "C23" => bidi::c23(ctx),
        "C24" => bidi::c24(ctx),
        "C25" => bidi::c25(ctx),
        "C30" => san::c30(ctx),
        "C31" => total::c31(ctx),
        "C32" => conc::c32(ctx),
        "C33" => cli::c33(ctx),
        "C34" => data::c34(ctx),
        "C35" => cross::c35(ctx),
        "C36" => gen::c36(ctx),
        "C38" => configs::c38(ctx),
        "C37" => laws::c37(ctx),
        _ => return false,
    }
    true
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("optime") => total::optime(a[2].parse().unwrap()),
        Some("bidimodel") => bidi::dump_model(a[2].parse().unwrap()),
        Some("laws") => cross::list(),
        Some("dump") => dump::main(&a[2]),
        Some("run") => {
            let prop = a[2].clone();
            let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let code = ctx::supervise(&prop.clone(), &root.clone(), move || {
                let c: &'static ctx::Ctx = Box::leak(Box::new(ctx::Ctx::new(&prop, &tier, seed, &root)));
                ctx::start_watchdog(c);
                if !run(&prop, c) {
                    eprintln!("unknown property {}", prop);
                    return 2;
                }
                c.finish()
            });
            std::process::exit(code);
        }
        _ => std::process::exit(2),
    }
}
