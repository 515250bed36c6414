#[path = "../../harness/src/sym.rs"]
#[allow(dead_code)]
mod sym;

use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use svgcleaner::cli::{self, InputFrom, Key, OutputTo, KEYS};
use svgcleaner::{CleaningOptions, StyleJoinMode};
use svgdom::{AttributesOrder, Indent, ListSeparator, ParseOptions, WriteOptions};

struct Case { name: &'static str, tpl: &'static str, f: fn(&Case) }

/// what the command line settles
#[derive(Clone, PartialEq)]
struct Set { flags: Vec<bool>, join: u8, sep: u8, indent: u8, prec: [u8; 4] }

/// the documented flags and their defaults
const FLAGS: [(&str, bool); 43] = [
    ("remove-comments", true), ("remove-declarations", true), ("remove-nonsvg-elements", true), ("remove-unused-defs", true), ("convert-shapes", true),
    ("remove-title", true), ("remove-desc", true), ("remove-metadata", true), ("remove-dupl-lineargradient", true), ("remove-dupl-radialgradient", true),
    ("remove-dupl-fegaussianblur", true), ("ungroup-groups", true), ("ungroup-defs", true), ("group-by-style", true), ("merge-gradients", true),
    ("regroup-gradient-stops", true), ("remove-invalid-stops", true), ("remove-invisible-elements", true), ("resolve-use", true), ("remove-version", true),
    ("remove-nonsvg-attributes", true), ("remove-unreferenced-ids", true), ("trim-ids", true), ("remove-text-attributes", true), ("remove-unused-coordinates", true),
    ("remove-default-attributes", true), ("remove-xmlns-xlink-attribute", true), ("remove-needless-attributes", true), ("remove-gradient-attributes", false),
    ("apply-transform-to-gradients", true), ("apply-transform-to-shapes", true), ("remove-unresolved-classes", true), ("paths-to-relative", true),
    ("remove-unused-segments", true), ("convert-segments", true), ("apply-transform-to-paths", false), ("trim-paths", true), ("join-arcto-flags", false),
    ("remove-dupl-cmd-in-paths", true), ("use-implicit-cmds", true), ("trim-colors", true), ("append-newline", false), ("simplify-transforms", true),
];
const PATHS: usize = 32;
const UNUSED_SEG: usize = 33;
const CONVERT_SEG: usize = 34;
const TS_PATHS: usize = 35;
const TRIM_PATHS: usize = 36;
const ARC: usize = 37;

fn read(p: &ParseOptions, w: &WriteOptions, o: &CleaningOptions) -> Set {
    Set {
        flags: vec![
            !p.parse_comments, !p.parse_declarations, !p.parse_unknown_elements, o.remove_unused_defs, o.convert_shapes,
            o.remove_title, o.remove_desc, o.remove_metadata, o.remove_dupl_linear_gradients, o.remove_dupl_radial_gradients,
            o.remove_dupl_fe_gaussian_blur, o.ungroup_groups, o.ungroup_defs, o.group_by_style, o.merge_gradients,
            o.regroup_gradient_stops, o.remove_invalid_stops, o.remove_invisible_elements, o.resolve_use, o.remove_version,
            !p.parse_unknown_attributes, o.remove_unreferenced_ids, o.trim_ids, o.remove_text_attributes, o.remove_unused_coordinates,
            o.remove_default_attributes, o.remove_xmlns_xlink_attribute, o.remove_needless_attributes, o.remove_gradient_attributes,
            o.apply_transform_to_gradients, o.apply_transform_to_shapes, p.skip_unresolved_classes, o.paths_to_relative,
            o.remove_unused_segments, o.convert_segments, o.apply_transform_to_paths, w.use_compact_path_notation, w.join_arc_to_flags,
            w.remove_duplicated_path_commands, w.use_implicit_lineto_commands, w.trim_hex_colors, o.append_newline, w.simplify_transform_matrices,
        ],
        join: match o.join_style_attributes { StyleJoinMode::None => 0, StyleJoinMode::Some => 1, StyleJoinMode::All => 2 },
        sep: match w.list_separator { ListSeparator::Space => 0, ListSeparator::Comma => 1, ListSeparator::CommaSpace => 2 },
        indent: match w.indent { Indent::None => 0, Indent::Spaces(n) => n + 1, Indent::Tabs => 100 },
        prec: [o.coordinates_precision, o.properties_precision, o.transforms_precision, o.paths_coordinates_precision],
    }
}

const PREC: [(&str, u8); 4] = [("coordinates-precision", 6), ("properties-precision", 6), ("transforms-precision", 8), ("paths-coordinates-precision", 8)];
const JOIN: [&str; 3] = ["no", "some", "all"];
const SEP: [&str; 3] = ["space", "comma", "comma-space"];
const INDENT: [(&str, u8); 7] = [("none", 0), ("0", 1), ("1", 2), ("2", 3), ("3", 4), ("4", 5), ("tabs", 100)];
const SWITCHES: [&str; 5] = ["multipass", "allow-bigger-file", "copy-on-error", "quiet", "stdout"];

fn start(no_defaults: bool) -> Set {
    Set { flags: FLAGS.iter().map(|f| f.1 && !no_defaults).collect(), join: 1, sep: 0, indent: 0, prec: [6, 6, 8, 8] }
}
/// the flags that need another one
fn consistent(s: &Set) -> bool {
    let f = &s.flags;
    (f[TRIM_PATHS] || !f[ARC]) && (f[PATHS] || !(f[UNUSED_SEG] || f[CONVERT_SEG] || f[TS_PATHS]))
}
fn flag_value(v: &[u8]) -> Option<bool> {
    match v { b"true" | b"yes" | b"y" => Some(true), b"false" | b"no" | b"n" => Some(false), _ => None }
}

const NOPT: usize = 43 + 4 + 3;
fn opt_name(k: usize) -> &'static str {
    if k < 43 { FLAGS[k].0 } else if k < 47 { PREC[k - 43].0 } else { ["join-style-attributes", "list-separator", "indent"][k - 47] }
}
/// None: not a value of the option
fn apply(s: &mut Set, k: usize, v: &[u8]) -> Option<()> {
    if k < 43 {
        s.flags[k] = flag_value(v)?;
    } else if k < 47 {
        let t = std::str::from_utf8(v).ok()?;
        let n = match t.parse::<u8>() { Ok(n) if n >= 1 && n <= 12 => n, _ => return None };
        s.prec[k - 43] = n;
    } else if k == 47 {
        s.join = JOIN.iter().position(|x| x.as_bytes() == v)? as u8;
    } else if k == 48 {
        s.sep = SEP.iter().position(|x| x.as_bytes() == v)? as u8;
    } else {
        s.indent = INDENT.iter().find(|x| x.0.as_bytes() == v)?.1;
    }
    Some(())
}
/// valid values; `i` below their number
fn value(k: usize, i: usize) -> &'static str {
    if k < 43 { ["true", "false", "yes", "no", "y", "n"][i] }
    else if k < 47 { ["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"][i] }
    else if k == 47 { JOIN[i] } else if k == 48 { SEP[i] } else { INDENT[i].0 }
}
fn values(k: usize) -> usize { if k < 43 { 6 } else if k < 47 { 12 } else if k < 49 { 3 } else { 7 } }

fn show(args: &[OsString]) {
    #[cfg(feature = "replay")]
    sym::note(&format!("arguments: {:?}", args));
    let _ = args;
}

/// the settings, or None when the tool refuses the arguments
fn settings(args: &[OsString]) -> Option<Set> {
    show(args);
    let a = match cli::prepare_app().get_matches_from_safe(args) {
        Ok(a) => a,
        Err(_) => return None,
    };
    if !cli::check_values(&a) { return None; }
    let (p, w, o) = (cli::gen_parse_options(&a), cli::gen_write_options(&a), cli::gen_cleaning_options(&a));
    // what no option settles
    sym::check(!p.parse_px_unit && !p.skip_invalid_attributes && !p.skip_invalid_css && !p.skip_paint_fallback, "P14 a parse setting without an option has another value");
    sym::check(!w.use_single_quote && !w.write_hidden_attributes && w.remove_leading_zero && w.attributes_indent == Indent::None && w.attributes_order == AttributesOrder::Alphabetical, "P14 a write setting without an option has another value");
    Some(read(&p, &w, &o))
}

fn check(args: &[OsString], want: Option<Set>, c: &Case) {
    let got = settings(args);
    match (got, want) {
        (None, None) => {}
        (Some(_), None) => sym::check(false, "P14 invalid or inconsistent arguments are accepted"),
        (None, Some(_)) => sym::check(false, "P14 valid arguments are refused"),
        (Some(g), Some(w)) => {
            for i in 0..43 {
                if g.flags[i] != w.flags[i] {
                    #[cfg(feature = "replay")]
                    sym::note(&format!("--{}: {} instead of {}", FLAGS[i].0, g.flags[i], w.flags[i]));
                    sym::check(false, "P14 a flag has another value");
                }
            }
            sym::check(g.join == w.join, "P14 join-style-attributes has another value");
            sym::check(g.sep == w.sep, "P14 list-separator has another value");
            sym::check(g.indent == w.indent, "P14 indent has another value");
            sym::check(g.prec == w.prec, "P14 a precision has another value");
        }
    }
    sym::cover(c.name);
}

fn base() -> Vec<OsString> { vec![OsString::from("svgcleaner")] }
fn files(v: &mut Vec<OsString>) { v.push(OsString::from("in.svg")); v.push(OsString::from("out.svg")); }
fn push(v: &mut Vec<OsString>, k: usize, val: OsString, eq: bool) {
    let mut s = String::from("--");
    s.push_str(opt_name(k));
    let mut s = OsString::from(s);
    if eq { s.push("="); s.push(&val); v.push(s); } else { v.push(s); v.push(val); }
}
fn fin(s: Set) -> Option<Set> { if consistent(&s) { Some(s) } else { None } }

fn one(c: &Case) {
    let nd = sym::flag("no defaults");
    let mut s = start(nd);
    let mut v = base();
    let before = sym::flag("files first");
    if before { files(&mut v); }
    if nd { v.push("--no-defaults".into()); }
    let k = sym::pick("option", NOPT + 1);
    if k < NOPT {
        let x = value(k, sym::pick("value", values(k)));
        push(&mut v, k, x.into(), sym::flag("="));
        apply(&mut s, k, x.as_bytes()).unwrap();
    }
    if !before { files(&mut v); }
    check(&v, fin(s), c);
}

/// two options, in either order
fn two(c: &Case) {
    let nd = sym::flag("no defaults");
    let mut s = start(nd);
    let mut v = base();
    let i = sym::pick("first", NOPT);
    let j = sym::pick("second", NOPT);
    for (n, k) in [i, j].iter().enumerate() {
        // not the default, or what is off without defaults
        let k = *k;
        let x = if k < 43 { if sym::flag("on") { "true" } else { "no" } } else { value(k, n) };
        push(&mut v, k, x.into(), true);
        apply(&mut s, k, x.as_bytes()).unwrap();
        if nd && n == 0 { v.push("--no-defaults".into()); }
    }
    files(&mut v);
    // an option can be given once
    check(&v, if i == j { None } else { fin(s) }, c);
}

/// every combination of the flags that depend on each other
fn dependent(c: &Case) {
    let nd = sym::flag("no defaults");
    let mut s = start(nd);
    let mut v = base();
    if nd { v.push("--no-defaults".into()); }
    for k in PATHS..ARC + 1 {
        match sym::pick("state", 3) {
            0 => {}
            x => { let x = ["true", "false"][x - 1]; push(&mut v, k, x.into(), true); apply(&mut s, k, x.as_bytes()).unwrap(); }
        }
    }
    files(&mut v);
    check(&v, fin(s), c);
}

/// any bytes as the value
fn bytes(lo: i64, hi: i64, max: usize) -> Vec<u8> {
    let n = sym::pick("length", max + 1);
    (0..n).map(|_| sym::int("byte", lo, hi) as u8).collect()
}
fn any_value(c: &Case) {
    let k = if c.tpl.contains("<FLAG>") { [0, 11, PATHS, ARC, 42][sym::pick("option", 5)] }
        else if c.tpl.contains("<NUM>") { 43 + sym::pick("option", 4) }
        else { 47 + sym::pick("option", 3) };
    let b = if c.tpl.contains("<NUM>") { bytes(43, 58, 3) } else if c.tpl.contains("<FLAG>") { bytes(97, 122, 5) } else { bytes(45, 122, 6) };
    // the argument parser takes "--name==value" as "--name=value"
    if b.first() == Some(&b'=') { return; }
    let mut s = start(false);
    // how the text compares is settled by the solver, byte by byte
    let ok = apply(&mut s, k, &b).is_some();
    let mut v = base();
    push(&mut v, k, OsString::from_vec(b), true);
    files(&mut v);
    check(&v, if ok { fin(s) } else { None }, c);
}

/// lists of flags, the switches and the file arguments
fn many(c: &Case) {
    let nd = sym::flag("no defaults");
    let mut s = start(nd);
    let mut v = base();
    let at = sym::pick("first", 40);
    let on = sym::flag("on");
    for k in at..at + 4 {
        if k >= PATHS && k <= ARC { continue; }
        let x = if sym::flag("given") { continue } else if on { "yes" } else { "false" };
        push(&mut v, k, x.into(), k % 2 == 0);
        apply(&mut s, k, x.as_bytes()).unwrap();
    }
    if nd { v.push("--no-defaults".into()); }
    files(&mut v);
    check(&v, fin(s), c);
}

fn switches(c: &Case) {
    let mut v = base();
    let mut on = [false; 5];
    for i in 0..5 {
        on[i] = sym::flag(SWITCHES[i]);
        if on[i] { v.push(OsString::from(if i == 4 && sym::flag("short") { "-c".to_string() } else { format!("--{}", SWITCHES[i]) })); }
    }
    const NAMES: [&str; 6] = ["a.svg", "dir/b.SVG", "-", "c.png", ".svg", "svg"];
    let inp = NAMES[sym::pick("in", 6)];
    let out = if sym::flag("out file") { Some(NAMES[sym::pick("out", 6)]) } else { None };
    v.push(inp.into());
    if let Some(o) = out { v.push(o.into()); }
    show(&v);
    let valid = |x: &str| x.ends_with(".svg") || x.ends_with(".SVG") || x == "-";
    let want = valid(inp) && out.map(valid).unwrap_or(on[4]);
    let a = cli::prepare_app().get_matches_from_safe(&v);
    sym::check(a.is_ok() == want, if want { "P14 valid file arguments are refused" } else { "P14 invalid file arguments are accepted" });
    if let Ok(a) = a {
        let keys = [Key::Multipass, Key::AllowBiggerFile, Key::CopyOnError, Key::Quiet, Key::Stdout];
        for i in 0..5 { sym::check(a.is_present(KEYS[keys[i]]) == on[i], "P14 a switch has another value"); }
        sym::check(!a.is_present(KEYS[Key::NoDefaults]), "P14 a switch has another value");
        sym::check(cli::check_values(&a), "P14 the defaults are refused");
        let (p, w, o) = (cli::gen_parse_options(&a), cli::gen_write_options(&a), cli::gen_cleaning_options(&a));
        sym::check(read(&p, &w, &o) == start(false), "P14 a switch changes other settings");
        // a file name stays the file name, standard output is asked for by the switch
        if out != Some("-") {
            let stdin = inp == "-" && on[4];
            sym::check(cli::input(&a) == if stdin { InputFrom::Stdin } else { InputFrom::File(inp) }, "P14 other input");
            sym::check(cli::output(&a) == if on[4] { OutputTo::Stdout } else { OutputTo::File(out.unwrap()) }, "P14 other output");
        }
    }
    sym::cover(c.name);
}

/// names that are not options, values that are missing
fn unknown(c: &Case) {
    let k = sym::pick("option", NOPT);
    let mut v = base();
    let name = opt_name(k);
    let mut s = String::from("--");
    let how = sym::pick("how", 6);
    match how {
        0 => { s.push_str(&name[..name.len() - 1]); s.push_str("=true"); }
        1 => { s.push_str(name); s.push_str("x=true"); }
        2 => { s.push_str(name); s.push('='); }
        3 => { s.push_str(&name.to_uppercase()); s.push_str("=true"); }
        4 => { s.push_str(name); s.push_str("= true"); }
        _ => { s.push_str(name); }
    }
    let end = sym::flag("at the end");
    if end { files(&mut v); v.push(s.into()); } else { v.push(s.into()); files(&mut v); }
    let r = settings(&v);
    // the argument parser takes an option at the very end without a value as not given
    let defaults = how == 5 && end && r == Some(start(false));
    sym::check(r.is_none() || defaults, "P14 invalid or inconsistent arguments are accepted");
    sym::cover(c.name);
}

static CASES: &[Case] = &[
    Case { name: "P14 one option", tpl: "svgcleaner [--no-defaults] [--OPTION{=| }VALUE] in.svg out.svg, every option and valid value, files first or last", f: one },
    Case { name: "P14 dependent flags", tpl: "every state (absent, true, false) of paths-to-relative, remove-unused-segments, convert-segments, apply-transform-to-paths, trim-paths and join-arcto-flags", f: dependent },
    Case { name: "P14 any flag value", tpl: "--FLAG=<FLAG>, up to 5 lower case letters", f: any_value },
    Case { name: "P14 any precision", tpl: "--PRECISION=<NUM>, up to 3 of + , - . / 0-9 :", f: any_value },
    Case { name: "P14 any value of a list", tpl: "--OPTION=<VALUE>, up to 6 bytes from - to z", f: any_value },
    Case { name: "P14 switches and files", tpl: "the switches and file arguments", f: switches },
    Case { name: "P14 unknown options", tpl: "names that are no options, missing values", f: unknown },
    Case { name: "P14 several flags", tpl: "any four neighbouring flags", f: many },
    Case { name: "P14 two options", tpl: "any two options, also the same twice", f: two },
];

#[no_mangle]
pub extern "C" fn sym_main(param: u64) {
    let param = param % 1000000;
    let only = param / 100;
    let k = if only > 0 { only as usize - 1 } else { sym::pick("case", CASES.len()) };
    (CASES[k].f)(&CASES[k]);
}

#[cfg(not(feature = "replay"))]
fn main() { sym_main(std::env::args().count() as u64); }

#[cfg(feature = "replay")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        for c in CASES { println!("{{\"name\":{:?},\"tpl\":{:?}}}", c.name, c.tpl); }
        return;
    }
    let s = std::fs::read_to_string(&a[2]).unwrap();
    sym::IN.with(|i| for l in s.lines() {
        if let Some(p) = l.rfind(' ') { i.borrow_mut().insert(l[..p].to_string(), l[p + 1..].parse().unwrap()); }
    });
    std::panic::set_hook(Box::new(|i| sym::panicked(&i.to_string())));
    sym_main(a[1].parse().unwrap());
    sym::done();
}
