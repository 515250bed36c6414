use crate::common::*;
use crate::p12::{defaults, task, TASKS};
use crate::render::{items_eq, render, trace_doc};
use crate::{sym, tpl};
use svgdom::{Document, Indent, WriteOptions};

/// the options of the command line, all of them, all but one, or any two
fn combos(o: &mut CleaningOptions) {
    match sym::pick("options", 4) {
        0 => defaults(o),
        1 => { for i in 0..TASKS { task(o, i); } }
        2 => {
            let k = sym::pick("without", TASKS);
            for i in 0..TASKS { if i != k { task(o, i); } }
        }
        _ => {
            task(o, sym::pick("first", TASKS));
            task(o, sym::pick("second", TASKS));
        }
    }
}

macro_rules! sh { () => { "{path d='M 1 1 L 5 5 L 1 5'|rect width='5' height='@p'|circle r='3'|line x2='5' stroke='red'}" } }

static OWN: &[Case] = &[
    Case { name: "P18 groups, styles and transforms", tpl: concat!("<svg {|fill='red'}><g {|transform='scale(2)'|opacity='0.5'|fill='blue'|display='none'} {|stroke='green' stroke-width='2'}>{1:|<g fill='green'>}<path d='M 1 1 L @k 5 L 1 5' {|transform='translate(@k 1)'|fill='none'|fill='blue'}/>{1:|</g><g fill='green'>}<", sh!(), "{| fill='blue'| transform='scale(2)'| opacity='0.5'}/>{1:|</g>}</g></svg>"), opt: combos },
    Case { name: "P18 paint servers", tpl: concat!("<svg><defs><linearGradient id='a' {|x1='0.25'|gradientUnits='userSpaceOnUse'} {|gradientTransform='scale(2)'}><stop offset='0' stop-color='{red|blue}'/><stop offset='1' {|stop-opacity='@O'}/></linearGradient><{1:linear|radial}Gradient id='b' xlink:href='#a' {|spreadMethod='repeat'}/><linearGradient id='c' {|x1='0.25'}><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient></defs><g {|fill='url(#a)'} {|transform='scale(2)'}><path d='M 1 1 H 5 V 5 Z' fill='url(#{a|b|c})' {|transform='scale(2)'}/><rect width='5' height='4' {|fill='url(#b)'|fill='url(#c)'|stroke='url(#a)'} {|transform='translate(1 2)'}/></g></svg>"), opt: combos },
    Case { name: "P18 use, symbols and effects", tpl: concat!("<svg><defs><path id='p' d='M 1 1 H 5 V @k Z' {|transform='scale(2)'|fill='red'}/><clipPath id='c' {|transform='scale(2)'|clipPathUnits='objectBoundingBox'}><use xlink:href='#p'/></clipPath><mask id='m'><rect width='5' height='5' fill='{white|url(#l)}'/></mask><linearGradient id='l'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient></defs><g {|clip-path='url(#c)'|mask='url(#m)'|opacity='0.5'} {|transform='scale(2)'}><use xlink:href='#p' {|x='2'|fill='blue'|transform='scale(2)'|opacity='0.5'}/>{|<use xlink:href='#p' y='@k'/>}<rect width='5' height='4' {|clip-path='url(#c)'|mask='url(#m)'|fill='url(#l)'}/></g></svg>"), opt: combos },
    Case { name: "P18 text and other elements", tpl: "<svg><g {|fill='red'|font-size='12'|stroke='none'} {|transform='scale(2)'|opacity='0.5'}><text {|x='1'|fill='blue'|font-size='20'}>a<tspan {|fill='green'|dx='2'}>b</tspan></text><{1:path d='M 1 1 L 5 5' stroke='blue'|image width='5' height='5' xlink:href='data:image/png;base64,AAAA'|switch|svg width='5' height='5'|a} {|transform='translate(1 2)'|display='none'}>{1:|||<path d='M 1 1 L 5 5 L 5 1'/>|<rect width='3' height='4'/>}</{1:path|image|switch|svg|a}></g>{|<g/>}<line x2='5' y2='5' {|stroke='red'}/></svg>", opt: combos },
    Case { name: "P18 definitions within groups with a style", tpl: "<svg color='lime' fill='lime'><g {color='blue'|fill='blue'|opacity='0.5'}><{2:filter|linearGradient|pattern width='5' height='5'|mask|symbol} id='d' {|fill='inherit'|color='red'}>{2:<feFlood flood-color='{currentColor|red}'/>|<stop stop-color='{currentColor|red}'/><stop offset='1'/>|<path d='M 0 0 H 5 V 5 Z' {fill='currentColor'|fill='inherit'|}/>|<path d='M 0 0 H 5 V 5 Z' {fill='currentColor'|fill='inherit'|}/>|<path d='M 0 0 H 5 V 5 Z' {stroke='currentColor'|}/>}</{2:filter|linearGradient|pattern|mask|symbol}></g><{2:path|path|path|path|use} {2:d='M 1 1 H 9 V 9 Z' filter='url(#d)'|d='M 1 1 H 9 V 9 Z' stroke='url(#d)'|d='M 1 1 H 9 V 9 Z' fill='url(#d)'|d='M 1 1 H 9 V 9 Z' mask='url(#d)'|xlink:href='#d'} {|color='green'}/></svg>", opt: combos },
    Case { name: "P18 written and read again", tpl: concat!("<svg {|viewBox='0 0 9 9'}><g {|transform='scale(2)'|opacity='0.5'|fill='blue'} {|stroke='green' stroke-width='2'}><path d='M 1 1 L 2.5 5 {|C 1 2 3 4 5 6 Z|A 1 2 3 0 1 5 6 h 3|Q 1 2 3 4 T 5 6 z m 1 1 h 3 v 4}' {|transform='translate(1.5 1)'|fill='none'|fill='url(#l)'} {|stroke-dasharray='1 2' stroke-linecap='round' stroke-linejoin='bevel' fill-rule='evenodd' stroke-opacity='0.5'}/><{rect width='5' height='0.5'|circle r='3'|polygon points='1 1 5 5 1 5'|use xlink:href='#p'} {|fill='blue'|opacity='0.5'}/></g><defs><linearGradient id='l'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='{#ffffff|#aabbcc}' {|stop-opacity='0.25'}/></linearGradient><path id='p' d='M 1 1 H 5 V 5 Z'/></defs></svg>"), opt: combos },
    Case { name: "P18 written numbers and texts", tpl: "<svg><path d='M {-1.5|.5|1e2|0} {-0.25|.5|100} {L|l} {-0.5|.125|10}{,| }{-0.75|3} {a 1 2 3 0 1 -4 -5|a 1 2 3 1 0 .5 .5|c -1 -.5 .5 .25 3 -4|h -.5 v .5 h -1 z|q .5 .5 -1 -1 t .5 .5}' {|transform='matrix(0.5 0 0 -1 -.5 .5)'|transform='translate(-1)'|transform='rotate(90)'|transform='scale(-1 .5)'} stroke='red' {|stroke-width='.5'|stroke-width='2mm'}/>{|<text xml:space='preserve' font-size='.5'> a &lt; b  <tspan fill='red'> c </tspan></text>|<text>a &amp; b<tspan> c</tspan></text>|<text font-family='&quot;A&quot;'>&quot;</text>}</svg>", opt: combos },
];

pub fn cases() -> Vec<Case> {
    let mut v: Vec<Case> = Vec::new();
    for c in OWN { v.push(Case { name: c.name, tpl: c.tpl, opt: c.opt }); }
    let others: [(&'static str, &'static [Case]); 9] = [
        ("P18 documents of P01", crate::p01::CASES), ("P18 documents of P02", crate::p02::CASES), ("P18 documents of P03", crate::p03::CASES),
        ("P18 documents of P04", crate::p04::CASES), ("P18 documents of P05", crate::p05::CASES), ("P18 documents of P06", crate::p06::CASES),
        ("P18 documents of P07", crate::p07::CASES), ("P18 documents of P08", crate::p08::CASES), ("P18 documents of P11", crate::p11::CASES),
    ];
    for &(name, cs) in others.iter() {
        let mut t = String::from("{");
        for (i, c) in cs.iter().enumerate() {
            if i > 0 { t.push('|'); }
            t.push_str(c.tpl);
        }
        t.push('}');
        v.push(Case { name, tpl: Box::leak(t.into_boxed_str()), opt: combos });
    }
    v
}

fn same(c: &Case, before: &[crate::render::Item], doc: &Document, what: &str) {
    let after = render(doc, true);
    let _ = c;
    sym::check(items_eq(before, &after), what);
}

pub fn run(c: &Case) {
    let mut doc = tpl::doc(c.tpl);
    let before = render(&doc, true);
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    let written = c.name.contains("written");
    let join = opt.join_style_attributes;
    if !written { opt.join_style_attributes = StyleJoinMode::None; }
    let mut w = WriteOptions::default();
    if written && sym::flag("compact") {
        w.trim_hex_colors = true;
        w.remove_leading_zero = true;
        w.use_compact_path_notation = true;
        w.join_arc_to_flags = sym::flag("join flags");
        w.remove_duplicated_path_commands = true;
        w.use_implicit_lineto_commands = true;
        w.simplify_transform_matrices = true;
        w.indent = Indent::None;
    }
    let _ = join;
    show("before", &doc);
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &w);
    #[cfg(feature = "replay")]
    if let Err(ref e) = r { sym::note(&format!("error: {}", e)); }
    if c.name.contains("P11") && r.is_err() { return; }
    sym::check(r.is_ok(), "P18 a supported document was refused");
    show("after", &doc);
    if !written {
        same(c, &before, &doc, c.name);
        let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &w);
        sym::check(r.is_ok(), "P18 a cleaned document was refused");
        show("again", &doc);
        same(c, &before, &doc, "P18 the second pass changes the rendering");
        trace_doc(&doc);
    } else {
        for what in ["P18 the written document renders otherwise", "P18 the written document of the second pass renders otherwise"].iter() {
            let mut buf = Vec::new();
            svgcleaner::cleaner::write_buffer(&doc, &w, &mut buf);
            let s = String::from_utf8(buf).unwrap();
            #[cfg(feature = "replay")]
            sym::note(&format!("written: {}", s));
            doc = match svgcleaner::cleaner::parse_data(&s, &tpl::parse_opts()) { Ok(d) => d, Err(_) => { sym::check(false, "P18 the written document does not parse"); return; } };
            same(c, &before, &doc, what);
            sym::check(svgcleaner::cleaner::clean_doc(&mut doc, &opt, &w).is_ok(), "P18 a cleaned document was refused");
        }
    }
    sym::cover(c.name);
}
