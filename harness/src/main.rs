mod ctx;
mod oracle;
mod arith;
mod part;
mod graphs;
mod groups;
mod text;

use ctx::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let mut thorough = false;
    let mut seed = 1u64;
    let mut only = None;
    let mut secs = 60;
    let mut out = String::from("/dev/stdout");
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--thorough" => thorough = true,
            "--seed" => { i += 1; seed = args[i].parse().unwrap() },
            "--only" => { i += 1; only = Some(args[i].parse().unwrap()) },
            "--secs" => { i += 1; secs = args[i].parse().unwrap() },
            "--out" => { i += 1; out = args[i].clone() },
            _ => panic!("unknown argument {}", args[i]),
        }
        i += 1;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut ctx = Ctx::new(thorough, seed, only, secs, out.clone(), 20);
    // run on a big stack: some oracles recurse
    let ctx = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        run(&prop, &mut ctx);
        ctx
    }).unwrap().join();
    match ctx {
        Ok(ctx) => {
            let mut s = ctx.state.lock().unwrap();
            s.done = true;
            write_result(&s, &out);
        },
        Err(_) => { eprintln!("harness error: generator or oracle panicked"); std::process::exit(2) },
    }
}

fn run(prop: &str, ctx: &mut Ctx) {
    match prop {
        "A01" => arith::a01(ctx),
        "A02" => arith::a02(ctx),
        "A03" => arith::a03(ctx),
        "A04" => arith::a04(ctx),
        "A05" => arith::a05(ctx),
        "A06" => arith::a06(ctx),
        "A07" => arith::a07(ctx),
        "A08" => arith::a08(ctx),
        "P01" => part::p01(ctx),
        "G01" => graphs::g01(ctx),
        "G02" => graphs::g02(ctx),
        "G03" => graphs::g03(ctx),
        "G04" => graphs::g04(ctx),
        "S01" => graphs::s01(ctx),
        "S02" => graphs::s02(ctx),
        "C01" => groups::c01(ctx),
        "C02" => groups::c02(ctx),
        "C03" => groups::c03(ctx),
        "T01" => text::t01(ctx),
        "I01" => text::i01(ctx),
        "I02" => text::i02(ctx),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2) },
    }
}
