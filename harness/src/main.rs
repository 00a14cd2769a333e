mod addr;
mod cli;
mod utils;
mod common;
mod events;
mod evict;
mod fs;
mod hostile;
mod kinds;
mod links;
mod mirror;
mod msgs;
mod net;
mod ops;
mod proc;
mod rig;
mod schema;
mod wire;

use common::*;

#[global_allocator]
static ALLOC: Counting = Counting;

const STUCK: i32 = 9;

fn run(id: &str) -> i32 {
    install_panic_hook();
    let ctx = Ctx::new(id);
    watch_progress(&ctx, STUCK);
    match id {
        "C01" => wire::c01(&ctx),
        "C02" => wire::c02(&ctx),
        "C03" => wire::c03(&ctx),
        "C04" => wire::c04(&ctx),
        "C05" => wire::c05(&ctx),
        "C06" => wire::c06(&ctx),
        "C07" => wire::c07(&ctx),
        "C08" => net::c08(&ctx),
        "C09" => net::c09(&ctx),
        "C10" => hostile::c10(&ctx),
        "C11" | "C12" | "C13" | "C22" => fs::histories(&ctx),
        "C14" => evict::c14(&ctx),
        "C17" => evict::c17(&ctx),
        "C15" => proc::c15(&ctx),
        "C16" => proc::c16(&ctx),
        "C18" => ops::c18(&ctx),
        "C19" => ops::c19(&ctx),
        "C20" => msgs::c20(&ctx),
        "C27" => schema::c27(&ctx),
        "C28" => events::c28(&ctx),
        "C21" => msgs::c21(&ctx),
        "C24" => addr::c24(&ctx),
        "C25" => utils::c25(&ctx),
        "C26" => utils::c26(&ctx),
        "C23" => cli::c23(&ctx),
        _ => {
            eprintln!("unknown property {}", id);
            2
        }
    }
}

/// The monitors run in a child process, so that code under test which kills
/// its process (stack overflow, abort, double panic) or spins forever is still
/// observed. Either must happen twice with the same seed to be believed.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "child" {
        std::process::exit(proc::child(&args[2..]));
    }
    if std::env::var("MON_INNER").is_ok() {
        std::process::exit(run(&id));
    }
    use std::os::unix::process::ExitStatusExt;
    let mut fatal: Vec<String> = vec![];
    for _ in 0..2 {
        let st = std::process::Command::new(std::env::current_exe().expect("exe"))
            .arg(&id)
            .env("MON_INNER", "1")
            .status()
            .expect("spawn");
        match (st.code(), st.signal()) {
            (Some(c), _) if c != STUCK => std::process::exit(c),
            (Some(_), _) => fatal.push("made no progress for a long time".into()),
            (None, Some(s)) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL].contains(&s) => {
                fatal.push(format!("was killed by signal {}", s))
            }
            (None, s) => {
                eprintln!("the monitor was ended by signal {:?}", s);
                std::process::exit(5);
            }
        }
        eprintln!("run {} {}", fatal.len(), fatal.last().unwrap());
    }
    if fatal[0] != fatal[1] {
        std::process::exit(6);
    }
    let ctx = Ctx::new(&id);
    ctx.eval();
    ctx.violation(
        "process-fatal",
        &format!("twice with this seed, the process running the code under test {}", fatal[0]),
        serde_json::json!({ "runs": fatal }),
    );
    std::process::exit(ctx.finish("the process running the code under test did not survive", 0, &[]));
}
