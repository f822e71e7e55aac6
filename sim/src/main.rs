mod case;
mod cells;
mod cli;
mod driver;
mod fsrepo;
#[cfg(feature = "interval")]
mod interval;
mod res;
mod schema;
mod shared;
mod shrink;

use case::Family;

fn family(prop: &str) -> Box<dyn Family> {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C17" => Box::new(schema::SchemaFamily),
        "C10" => Box::new(res::ResFamily),
        "C13" | "C14" => Box::new(fsrepo::FsFamily),
        "C15" | "C16" => Box::new(cli::CliFamily),
        #[cfg(feature = "interval")]
        "C18" => Box::new(interval::IndexFamily),
        "C21" => Box::new(shared::SharedFamily),
        "C11" | "C12" => Box::new(cells::CellFamily),
        _ => {
            eprintln!("no check for {prop}");
            std::process::exit(2);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "check" => driver::check(&*family(&arg(2)), &arg(2)),
        "replay" => driver::replay(family, &arg(2)),
        "determinism" => driver::determinism(&*family(&arg(2)), &arg(2), arg(3).parse().unwrap_or(200)),
        _ => {
            eprintln!("usage: plsim check <property> | replay <file> | determinism <property> <n>");
            2
        }
    };
    std::process::exit(code);
}
