//! P16: the real `main` of the tool on a modelled file system.
#[path = "../../harness/src/sym.rs"]
#[allow(dead_code)]
mod sym;
mod vfs;

#[allow(dead_code, unused_imports)]
mod tool {
    include!("/repo/src/main.rs");
    pub fn run() { main() }
}

use std::io::Write;
use svgcleaner::{cleaner, cli};
use vfs::fs;

/// what the run is judged against
struct Want {
    input: Vec<u8>,
    /// the file read, None: standard input
    in_node: Option<usize>,
    out_path: Option<Vec<u8>>,
    /// the file that was there before, None: none
    out_node: Option<usize>,
    names: Vec<(Vec<u8>, usize)>,
    before: Vec<Vec<u8>>,
    /// the cleaned document (with the optional newline); None: the tool has to report an error
    clean: Option<Vec<u8>>,
    copy: bool,
}
static mut WANT: Option<Want> = None;

const ERR: &str = "P16 a failed run is not reported";

fn ended() -> ! {
    let f = fs();
    f.on = false;
    #[allow(static_mut_refs)]
    let w = unsafe { WANT.take().unwrap() };
    let err = String::from_utf8_lossy(&f.err).into_owned();
    let success = err.lines().all(|l| l.starts_with("Warning:") || l.contains("smaller now"));
    let faults = f.read_faults + f.open_faults + f.write_faults;
    #[cfg(feature = "replay")]
    {
        sym::note(&format!("stderr: {:?}", err));
        sym::note(&format!("faults: read {} open {} write {}", f.read_faults, f.open_faults, f.write_faults));
        for n in &f.names { sym::note(&format!("{}: {:?}", String::from_utf8_lossy(&n.0), String::from_utf8_lossy(&f.nodes[n.1]))); }
        sym::note(&format!("stdout: {:?}", String::from_utf8_lossy(&f.out)));
    }
    let aliased = w.out_path.is_some() && w.in_node.is_some() && w.out_node == w.in_node;
    let real_out = w.out_path.as_ref().map(|p| f.real(p));
    let now = w.out_path.as_ref().and_then(|p| f.look(p));

    // everything but the output is as it was
    if let Some(n) = w.in_node {
        if !aliased { sym::check(f.nodes[n] == w.input, "P16 the input file is modified"); }
    }
    for n in &w.names {
        if Some(&n.0) == real_out.as_ref() || Some(n.1) == w.in_node || Some(n.1) == w.out_node { continue; }
        sym::check(f.look(&n.0).map(|k| f.nodes[k] == w.before[n.1]).unwrap_or(false), "P16 another file is modified");
    }
    for n in &w.names {
        sym::check(f.look(&n.0).is_some(), "P16 a file is removed");
    }
    for n in &f.names {
        if Some(&n.0) == real_out.as_ref() { continue; }
        sym::check(w.names.iter().any(|m| m.0 == n.0), "P16 another file is created");
    }

    if success {
        match w.clean {
            None => sym::check(false, ERR),
            Some(ref c) => {
                if w.out_path.is_some() {
                    sym::check(now.map(|n| f.nodes[n] == *c).unwrap_or(false), "P16 success is reported and the output file is not the complete cleaned document");
                    sym::check(f.out.is_empty(), "P16 the standard output is used");
                } else {
                    sym::check(f.out == *c, "P16 success is reported and the standard output is not the complete cleaned document");
                }
            }
        }
        sym::cover("P16 success");
    } else {
        sym::check(w.clean.is_none() || faults > 0 || (w.out_path.is_some() && now.is_none()), "P16 an error is reported for a document that can be cleaned");
        // what the output holds
        let same = match (w.out_node, now) {
            (None, None) => true,
            (Some(_), Some(k)) => f.nodes[k] == w.before[w.out_node.unwrap()],
            _ => false,
        };
        let copied = w.copy && w.in_node.is_some() && now.map(|n| f.nodes[n] == w.input).unwrap_or(false);
        if w.out_path.is_some() {
            if f.write_faults == 0 && (w.clean.is_none() || f.read_faults > 0 || f.open_faults > 0) {
                // also after copying began and could not open or stat something
                sym::check(same || copied || (w.copy && faults > 0 && !aliased), "P16 the output is altered although the run failed");
                if aliased { sym::check(now.map(|n| f.nodes[n] == w.input).unwrap_or(false), "P16 the input file is damaged"); }
            }
            if w.clean.is_none() && faults == 0 && w.copy && w.in_node.is_some() && std::str::from_utf8(&w.input).is_ok() && f.look(w.out_path.as_ref().unwrap()).is_some() {
                sym::check(copied, "P16 copy-on-error leaves no copy");
            }
        } else {
            sym::check(f.write_faults > 0 || f.out.is_empty(), "P16 something is printed although the run failed");
        }
        sym::cover("P16 failure");
    }
    finish()
}

#[cfg(feature = "replay")]
fn finish() -> ! { sym::done() }
#[cfg(not(feature = "replay"))]
fn finish() -> ! { loop { sym::end() } }

#[cfg(not(feature = "replay"))]
fn set_args(v: &[String]) {
    extern "C" { fn sym_init_args(argc: i32, argv: *const *const u8, env: *const *const u8); }
    let mut p: Vec<*const u8> = vec![];
    for s in v {
        let mut b = s.clone().into_bytes();
        b.push(0);
        p.push(b.as_ptr());
        std::mem::forget(b);
    }
    let n = p.len() as i32;
    p.push(std::ptr::null());
    unsafe { sym_init_args(n, p.as_ptr(), std::ptr::null()) }
    std::mem::forget(p);
}
/// natively the arguments of a process are settled when it starts
#[cfg(feature = "replay")]
fn set_args(v: &[String]) {
    if std::env::args().skip(1).eq(v.iter().skip(1).cloned()) && std::env::var_os("VH_INPUT").is_some() { return; }
    use std::os::unix::process::CommandExt;
    let a: Vec<String> = std::env::args().collect();
    let e = std::process::Command::new("/proc/self/exe").args(&v[1..]).env("VH_PARAM", &a[1]).env("VH_INPUT", &a[2]).exec();
    sym::fail(&format!("{}", e));
}

const HEAD: &str = "<svg xmlns=\"http://www.w3.org/2000/svg\"";
/// documents: cleaned well, the same size, larger, refused by the parser, refused by the cleaner
fn docs(k: usize) -> Vec<u8> {
    let s = match k {
        0 => format!("{}><title>a</title><rect width='5' height='5'/></svg>", HEAD),
        1 => format!("{}/>", HEAD),
        2 => format!("{}><g fill=\"red\"><path d=\"M0 0H5\"/><path d=\"M0 0V5\"/></g></svg>", HEAD),
        3 => format!("{}><rect width=", HEAD),
        4 => format!("{}><script/></svg>", HEAD),
        5 => String::new(),
        6 => return b"<svg xmlns=\"http://www.w3.org/2000/svg\"><title>\xff</title></svg>".to_vec(),
        _ => format!("{}><!--\u{e4}\u{20ac}--><path d='M 10 20 L 30.5 40'/></svg>\n", HEAD),
    };
    s.into_bytes()
}

struct Case { name: &'static str, tpl: &'static str, file: bool, faults: usize, wide: usize }
static CASES: &[Case] = &[
    Case { name: "P16 file to file", tpl: "every document, kind of output file and switch; no faults", file: true, faults: 0, wide: 0 },
    Case { name: "P16 file to file with faults", tpl: "every document and kind of output file, one fault at any file operation", file: true, faults: 1, wide: 0 },
    Case { name: "P16 standard input and output", tpl: "every document from a file or the standard input to the standard output, one fault", file: false, faults: 1, wide: 0 },
    Case { name: "P16 several faults", tpl: "three documents, every kind of output file, up to two faults (three in the thorough run)", file: true, faults: 2, wide: 1 },
];

fn clean(input: &[u8], po: &svgdom::ParseOptions, wo: &svgdom::WriteOptions, co: &svgcleaner::CleaningOptions, multi: bool) -> Option<Vec<u8>> {
    let mut buf = input.to_vec();
    let mut size = 0;
    loop {
        let text = match std::str::from_utf8(&buf) { Ok(s) => s, Err(_) => return None };
        let mut d = match cleaner::parse_data(text, po) { Ok(d) => d, Err(_) => return None };
        if cleaner::clean_doc(&mut d, co, wo).is_err() { return None; }
        buf.clear();
        cleaner::write_buffer(&d, wo, &mut buf);
        if !multi || buf.len() == size { return Some(buf); }
        size = buf.len();
    }
}

fn run(k: usize, deep: bool) {
    let c = &CASES[k];
    let f = fs();
    f.dirs.push(b"/w".to_vec());
    let doc = if c.wide > 0 { [0, 3, 2][sym::pick("document", 3)] } else { sym::pick("document", 8) };
    let mut input = docs(doc);
    let mut args = vec!["svgcleaner".to_string()];
    let mut w = Want { input: vec![], in_node: None, out_path: None, out_node: None, names: vec![], before: vec![], clean: None, copy: false };
    let missing = c.file && c.faults == 0 && doc == 0 && sym::flag("no input file");
    f.nodes.push(vec![]);
    if !missing { f.names.push((b"/w/in.svg".to_vec(), 0)); }
    f.nodes.push(b"precious".to_vec());
    f.names.push((b"/w/other.svg".to_vec(), 1));
    let switches = c.faults == 0;
    let multi = switches && sym::flag("multipass");
    let bigger = if c.wide > 0 { true } else { sym::flag("allow bigger") };
    w.copy = sym::flag("copy on error");
    let nl = switches && sym::flag("newline");
    let indent = doc == 2;
    if multi { args.push("--multipass".into()); }
    if bigger { args.push("--allow-bigger-file".into()); }
    if w.copy { args.push("--copy-on-error".into()); }
    if switches && sym::flag("quiet") { args.push("--quiet".into()); }
    if nl { args.push("--append-newline=true".into()); }
    if indent { args.push("--indent=4".into()); }
    if doc == 1 { args.push("--remove-unused-defs=no".into()); }
    let mut stdin = false;
    if c.file {
        args.push("in.svg".into());
        w.in_node = if missing { None } else { Some(0) };
        let (name, node) = match if missing { sym::pick("output", 2) } else { sym::pick("output", 9) } {
            0 => ("out.svg", None),
            1 => { f.nodes.push(b"an old file, longer than what will be written in its place, so that a rest would be seen, and so on and so on and so on and so on and so on".to_vec());
                   f.names.push((b"/w/out.svg".to_vec(), 2)); ("out.svg", Some(2)) }
            2 => ("in.svg", Some(0)),
            3 => ("./in.svg", Some(0)),
            4 => { f.names.push((b"/w/hard.svg".to_vec(), 0)); ("hard.svg", Some(0)) }
            5 => { f.links.push((b"/w/link.svg".to_vec(), b"/w/in.svg".to_vec())); ("link.svg", Some(0)) }
            6 => { f.dirs.push(b"/w/dir".to_vec()); ("dir/../dir/out.svg", None) }
            7 => { f.dirs.push(b"/w/dir.svg".to_vec()); ("dir.svg", None) }
            _ => ("none/out.svg", None),
        };
        args.push(name.into());
        w.out_path = Some(name.as_bytes().to_vec());
        w.out_node = node;
    } else {
        if sym::flag("stdin") {
            stdin = true;
            args.push("-".into());
            args.push("-c".into());
        } else {
            w.in_node = Some(0);
            args.push("-c".into());
            args.push("in.svg".into());
        }
    }
    // what has to come out
    let a = match cli::prepare_app().get_matches_from_safe(&args) { Ok(a) => a, Err(_) => sym::fail("arguments") };
    let (po, wo, co) = (cli::gen_parse_options(&a), cli::gen_write_options(&a), cli::gen_cleaning_options(&a));
    w.clean = if missing { None } else { clean(&input, &po, &wo, &co, multi) };
    if doc == 1 || doc == 2 {
        // a result that is a byte smaller, as large, a byte larger, much larger
        let n = w.clean.as_ref().map(|b| b.len() + 1).unwrap_or(0).saturating_sub(input.len());
        let pad = match sym::pick("size", 4) { 3 => 0, k => (n + 1 - k).saturating_sub(1) };
        let at = 4;
        for _ in 0..pad { input.insert(at, b' '); }
    }
    if let Some(ref b) = w.clean { if !bigger && b.len() > input.len() { w.clean = None; } }
    if nl { if let Some(ref mut b) = w.clean { b.push(b'\n'); } }
    w.input = input.clone();
    if stdin { f.stdin = input.clone(); }
    if !missing { f.nodes[0] = input.clone(); }
    set_args(&args);
    #[cfg(feature = "replay")]
    {
        sym::note(&format!("arguments: {}", args.join(" ")));
        sym::note(&format!("input: {:?}", String::from_utf8_lossy(&input)));
    }
    w.names = f.names.clone();
    w.before = f.nodes.clone();
    unsafe { WANT = Some(w); }
    f.faults = if c.wide > 0 && deep { 3 } else { c.faults };
    f.end = Some(ended);
    f.on = true;
    sym::cover(c.name);
    tool::run();
    // what the runtime does when main returns
    let _ = std::io::stdout().flush();
    ended()
}

#[no_mangle]
pub extern "C" fn sym_main(param: u64) {
    let deep = param / 1000000 > 0;
    let only = param % 1000000 / 100;
    let k = if only > 0 { only as usize - 1 } else { sym::pick("case", CASES.len()) };
    run(k, deep);
}

#[cfg(not(feature = "replay"))]
fn main() { sym_main(std::env::args().count() as u64); }

#[cfg(feature = "replay")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "list").unwrap_or(false) {
        for c in CASES { println!("{{\"name\":{:?},\"tpl\":{:?}}}", c.name, c.tpl); }
        return;
    }
    let (p, i) = match (std::env::var("VH_PARAM"), std::env::var("VH_INPUT")) { (Ok(p), Ok(i)) => (p, i), _ => (a[1].clone(), a[2].clone()) };
    let s = std::fs::read_to_string(&i).unwrap();
    sym::IN.with(|i| for l in s.lines() {
        if let Some(p) = l.rfind(' ') { i.borrow_mut().insert(l[..p].to_string(), l[p + 1..].parse().unwrap()); }
    });
    std::panic::set_hook(Box::new(|i| { fs().on = false; sym::panicked(&i.to_string()) }));
    sym_main(p.parse().unwrap());
    sym::done();
}
