mod code;
mod exec;
mod expr;
mod ext;
mod ir;
mod sys;
mod z3;

use exec::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::*;

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ll = arg(&a, "--ll").expect("--ll FILE");
    let entry = arg(&a, "--entry").unwrap_or("sym_main".into());
    let out = arg(&a, "--out").expect("--out FILE");
    let num = |k: &str, d: f64| arg(&a, k).map(|x| x.parse::<f64>().unwrap()).unwrap_or(d);
    let jobs = num("--jobs", 8.0) as i64;
    let param = num("--param", 0.0) as u64;
    let _ = std::fs::remove_file(&out);
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let m = ir::parse(&text);
    drop(text);
    let prog = code::lower(m);
    let parse_s = t0.elapsed().as_secs_f64();
    let ent = match prog.fidx.get(&entry) {
        Some(e) => *e,
        None => {
            eprintln!("symx: no function {} in {}", entry, ll);
            std::process::exit(70);
        }
    };
    let concrete = arg(&a, "--inputs").map(|f| {
        let s = std::fs::read_to_string(f).unwrap();
        s.lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| {
                let (n, v) = l.rsplit_once(' ').unwrap();
                (n.to_string(), v.parse().unwrap())
            })
            .collect::<Vec<(String, i64)>>()
    });
    let cfg = Rc::new(Cfg {
        max_steps: num("--max-steps", 60e6) as u64,
        out: out.clone(),
        jobs,
        deadline: num("--time", 600.0),
        seed: num("--seed", 1.0) as u64,
        samples: num("--samples", 60.0) as u64,
        max_viol: num("--max-violations", 200.0) as u64,
        trace_calls: a.iter().any(|x| x == "--trace"),
        concrete,
    });
    let shp = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const Shared;
    let sh = unsafe { &*shp };
    sh.active.store(1, Ordering::SeqCst);
    unsafe { prctl(36, 1, 0, 0, 0) };

    let mut mem = Mem { pages: vec![], next: 0, stack: vec![] };
    for (i, (d, c, _)) in prog.gdata.iter().enumerate() {
        mem.put(code::GLOBAL0 + i as u64, Some(Obj { data: d.clone(), sym: None, ro: *c }));
    }
    mem.put(2, Some(Obj { data: vec![0; 16], sym: None, ro: false }));
    mem.next = code::GLOBAL0 + prog.gdata.len() as u64 + 8;
    let extk: Vec<ext::Ext> = prog.exts.iter().map(|n| ext::override_for(n).unwrap_or_else(|| ext::resolve(n))).collect();
    let own_write = prog.funcs.iter().any(|f| &*f.name == "write");
    let override_fn: Vec<Option<ext::Ext>> = prog
        .funcs
        .iter()
        .map(|f| match ext::override_for(&f.name) {
            // a program with a `write` of its own observes what is printed
            Some(ext::Ext::Nop) if own_write => None,
            k => k,
        })
        .collect();
    if a.iter().any(|x| x == "--list") {
        for (i, n) in prog.exts.iter().enumerate() {
            println!("ext {:?} {}", extk[i], n);
        }
        for (i, f) in prog.funcs.iter().enumerate() {
            if let Some(o) = override_fn[i] {
                println!("override {:?} {} ({})", o, f.name, exec::demangle(&f.name));
            }
        }
        for n in &prog.unresolved_data {
            println!("data {}", n);
        }
        println!("{} functions, {} globals, parsed in {:.2}s", prog.funcs.len(), prog.gdata.len(), parse_s);
        return;
    }
    let nf = prog.funcs.len();
    let prog = Rc::new(prog);
    let st = State {
        frames: vec![],
        mem,
        pc: vec![],
        known: Default::default(),
        model: vec![],
        fixed: 0,
        inputs: vec![],
        counters: Default::default(),
        trace: vec![],
        steps: 0,
        fs: Default::default(),
        notes: Rc::new(vec![]),
    };
    let mut x = Exec {
        prog: prog.clone(),
        pool: expr::Pool::new(),
        z3: z3::Z3::new(num("--rlimit", 20e6) as u32),
        st,
        stack: vec![],
        cache: Default::default(),
        stats: Default::default(),
        cfg: cfg.clone(),
        sh: shp,
        memo: Default::default(),
        extk,
        override_fn,
        covers: HashMap::new(),
        funcs_seen: vec![false; nf],
        fork_sites: HashMap::new(),
        asserts_by: HashMap::new(),
        children: 0,
        start: std::time::Instant::now(),
        rng: cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567,
        reported: Default::default(),
        child: false,
    };
    let args = vec![code::V::C(param)];
    if x.push_frame(ent, args, 0, u32::MAX).is_err() {
        std::process::exit(70);
    }
    x.explore();
    x.write_stats();
    sh.active.fetch_sub(1, Ordering::SeqCst);
    // every other process is a (re-parented) child of this one
    let mut bad = 0;
    loop {
        let mut s = 0;
        let p = unsafe { waitpid(-1, &mut s, 0) };
        if p <= 0 {
            break;
        }
        if s != 0 {
            bad += 1;
        }
    }
    let ev = format!(
        "{{\"ev\":\"end\",\"stop\":{},\"paths\":{},\"violations\":{},\"errors\":{},\"bad_exits\":{},\"procs\":{},\"parse_s\":{:.2},\"wall_s\":{:.2},\"functions\":{},\"z3\":{}}}\n",
        sh.stop.load(Ordering::SeqCst),
        sh.paths.load(Ordering::SeqCst),
        sh.violations.load(Ordering::SeqCst),
        sh.errors.load(Ordering::SeqCst),
        bad,
        sh.procs.load(Ordering::SeqCst) + 1,
        parse_s,
        t0.elapsed().as_secs_f64(),
        nf,
        exec::js(&z3::version())
    );
    x.event(&ev);
    // names of the functions executed, for the evidence file
    if let Some(f) = arg(&a, "--fnames") {
        let v: Vec<String> = prog.funcs.iter().map(|f| exec::demangle(&f.name)).collect();
        std::fs::write(f, v.join("\n")).unwrap();
    }
}
