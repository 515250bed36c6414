use crate::common::*;

/// every path command (wide numbers where they are only moved around)
macro_rules! seg { () => { "{L @i @i|l @i @i|H @i|h @i|V @i|v @i|C @i @i @i @i @i @i|c @i @i @i @i @i @i|S @i @i @i @i|s @i @i @i @i|Q @i @i @i @i|q @i @i @i @i|T @i @i|t @i @i|A @n @n {0|30} {0|1} {0|1} @i @i|a @p @p 0 1 0 @i @i|Z|z M @i @i|m @i @i}" } }
/// smaller curves, for what multiplies coordinates
macro_rules! sek { () => { "{L @i @i|l @i @i|H @i|v @i|C @k @k @k @k @k @k|c @k @k @k @k @k @k|S @k @k @k @k|s @k @k @k @k|Q @k @k @k @k|q @k @k @k @k|T @k @k|t @k @k|A @n @n 0 0 {0|1} @i @i|a @p @p 0 1 0 @i @i|Z|z M @i @i|m @i @i}" } }
macro_rules! path { ($($d:expr),*) => { concat!("<svg><path stroke='red' d='", $($d),*, "'/></svg>") } }

fn all(o: &mut CleaningOptions) { o.paths_to_relative = true; o.remove_unused_segments = true; o.convert_segments = true; }
fn rel(o: &mut CleaningOptions) { o.paths_to_relative = true; }
fn unused(o: &mut CleaningOptions) { o.paths_to_relative = true; o.remove_unused_segments = true; }
fn conv(o: &mut CleaningOptions) { o.paths_to_relative = true; o.convert_segments = true; }

pub static CASES: &[Case] = &[
    Case { name: "P01 relative, 2 segments", tpl: path!("{M|m} @i @i ", seg!(), " ", seg!()), opt: rel },
    Case { name: "P01 unused, 2 segments", tpl: path!("M @k @k ", sek!(), " ", sek!()), opt: unused },
    Case { name: "P01 convert, 1 curve", tpl: path!("M 1 -2 {C|c} @k @k @k @k @j @j"), opt: conv },
    Case { name: "P01 convert, vertical or horizontal curve then another", tpl: path!("M 0 0 {C 0 @k 0 @k 0 @k|c @k 0 @k 0 @k 0} {S @j @j 3 1|s 3 1 @j @j|T @k @k|C 0 @j 0 @j 0 @j|Z|Z S 2 @k 3 1|L @k @k|}"), opt: conv },
    Case { name: "P01 convert, curve after segment", tpl: path!("M 1 0 {C 1 2 3 4 5 6|c 0 1 0 3 0 5|S 1 2 3 4|s 1 2 3 4|Q 2 5 3 4|q 2 5 3 4 t 1 1|A 3 4 0 0 1 4 4|L 3 3|H 4|v -2|Z|l 2 2 Z} C @k @k 2 1 3 @k"), opt: conv },
    Case { name: "P01 all, 1 curve", tpl: path!("M 1 0 {L 2 @k|l 0 0|} {C|c} @k 1 @k @k 2 @j"), opt: all },
    Case { name: "P01 all, line between curves", tpl: path!("M 0 0 {C 3 @j 4 2 6 4|c 3 3 @k 1 6 4|S 1 2 6 4|q 1 @k 6 4|Q 1 1 6 4|L 1 2|Z} {L 6 4|l @j 0|h 0|V @k|} {S 3 @j 0 1|s 1 @k 2 3|T @k 5|t 3 @j|C @k 6 9 1 1 1} {|Z|L 0 0|z l 0 @j}"), opt: all },
    Case { name: "P01 all, closed curves", tpl: path!("M 0 0 {C 0 1 0 2 0 @k|L 1 1|q @k 1 0 2|h @k v @j} {c 0 0 0 1 0 0|C 0 0 0 0 0 0|C 0 1 0 2 0 3|S 0 1 0 0|s 1 2 @k 2|Q 0 2 0 0|q @k 2 0 0|Z} {C 0 0 0 0 0 0|C 0 1 0 2 0 3|C 0 1 0 0 0 0|S 0 1 0 0|s 1 2 @k 2|L 0 0|T 0 0|t @k 2|Q 0 2 0 0|Z}"), opt: all },
    Case { name: "P01 relative, sub-paths", tpl: path!("{M|m} @i 2 {L 5 @i|h 3|q 1 2 @i 4|} {Z|z} {M|m} @i @i {h 3|A 2 3 0 0 1 7 @i|V 7} {Z|z|Z z} {L @i 1|l 3 @i|h @i|V @i|C 1 2 3 4 5 @i|s 1 2 3 @i|t @i 1|a 1 2 0 0 0 @i 3|m 1 2 l @i 3} {|v 2 z h @i}"), opt: rel },
    Case { name: "P01 all, sub-paths", tpl: path!("{M|m} 1 2 {|m 3 @j} {L 5 2|h 3|q 1 2 3 4|} {Z|z|Z Z|} {M|m|M 1 1 m|m 0 0 z m} @j @k {h 3|L 1 2|v 0|} {Z|z|Z z|z m 1 1 z} {L @k 1|l 3 @j|h @j|S 1 2 3 @k|a 1 2 0 0 0 @j 3|m 1 2 l @j 3|} {|v 2 z h 3|L @j 2 z}"), opt: all },
    Case { name: "P01 all, markers", tpl: "<svg><defs><marker id='m'><path d='M 0 0 H 1'/></marker></defs><g {|marker-mid='url(#m)'|marker='url(#m)'|marker-start='none' style='marker:url(#m)'}><path id='p' {|marker-start='url(#m)'|marker-end='none'|style='marker:url(#m)'} d='M 1 1 {L 1 @k|H @k|M 1 @k|} {L 5 @k|Z|M 5 5|} {L 1 1|H @k} {|L 1 @k|Z|Z L 1 3|M 1 2}'/></g>{|<g {|marker-end='url(#m)'}><use xlink:href='#p' {|marker-start='url(#m)'|marker-mid='url(#b)'}/></g>}</svg>", opt: all },
];

pub fn run(c: &Case) { keeps_rendering(c, true) }
