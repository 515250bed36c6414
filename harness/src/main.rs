mod common;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p15;
mod p17;
mod p18;
mod render;
mod sym;
mod tpl;

use common::Case;

fn table(prop: u64) -> (&'static [Case], fn(&Case)) {
    match prop {
        1 => (p01::CASES, p01::run),
        2 => (p02::CASES, p02::run),
        3 => (p03::CASES, p03::run),
        4 => (p04::CASES, p04::run),
        5 => (p05::CASES, p05::run),
        6 => (p06::CASES, p06::run),
        7 => (p07::CASES, p07::run),
        8 => (p08::CASES, p08::run),
        9 => (p09::CASES, p09::run),
        10 => (p10::CASES, p10::run),
        11 => (p11::CASES, p11::run),
        12 => (p12::CASES, p12::run),
        13 => (p13::CASES, p13::run),
        15 => (p15::CASES, p15::run),
        17 => (p17::CASES, p17::run),
        18 => (&*Box::leak(p18::cases().into_boxed_slice()), p18::run),
        _ => sym::fail("unknown property"),
    }
}

/// has a case with all of its documents in other surroundings
#[cfg(feature = "replay")]
fn varied(p: u64) -> bool { p <= 12 || p == 17 }

/// property + 100 * (case + 1), or just the property for all of its cases; + 1000000 for wider ranges
#[no_mangle]
pub extern "C" fn sym_main(param: u64) {
    tpl::set_wide(param >= 1000000);
    let param = param % 1000000;
    let (cases, f) = table(param % 100);
    let only = param / 100;
    let mut k = if only > 0 { only as usize - 1 } else { sym::pick("case", cases.len()) };
    if k >= cases.len() {
        // any of the documents, in another surrounding
        k = sym::pick("case", cases.len());
        tpl::set_variant(1 + sym::pick("variant", tpl::VARIANTS));
        f(&cases[k]);
        let n = ((param % 100) / 10, (param % 100) % 10);
        let mut name = String::from("P");
        name.push((b'0' + n.0 as u8) as char);
        name.push((b'0' + n.1 as u8) as char);
        name.push_str(" all documents in other surroundings");
        sym::cover(&name);
        return;
    }
    f(&cases[k]);
}

#[cfg(not(feature = "replay"))]
fn main() { sym_main(std::env::args().count() as u64); }

/// vh PARAM FILE: replay one assignment ("name#k value" lines) natively
#[cfg(feature = "replay")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        let p: u64 = a[2].parse().unwrap();
        for c in table(p).0 { println!("{{\"name\":{:?},\"tpl\":{:?}}}", c.name, c.tpl); }
        if varied(p) { println!("{{\"name\":\"P{:02} all documents in other surroundings\",\"tpl\":\"see vary() in tpl.rs\"}}", p); }
        return;
    }
    let s = std::fs::read_to_string(&a[2]).unwrap();
    sym::IN.with(|i| for l in s.lines() {
        if let Some(p) = l.rfind(' ') { i.borrow_mut().insert(l[..p].to_string(), l[p + 1..].parse().unwrap()); }
    });
    std::panic::set_hook(Box::new(|i| sym::panicked(&i.to_string())));
    sym_main(a[1].parse().unwrap());
    sym::done();
}
