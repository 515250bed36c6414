use crate::common::*;
use crate::p13::attrs;
use crate::render::{veq, V};
use crate::{sym, tpl};
use svgdom::*;
use svgdom::{AttributeId as A};

fn no(_: &mut CleaningOptions) {}
fn dflt(o: &mut CleaningOptions) { crate::p12::defaults(o); }

/// every presentation property with a value (no shorthand: these are not attributes)
macro_rules! prop { () => { "{alignment-baseline='middle'|baseline-shift='sub'|clip='rect(1 2 3 4)'|clip-path='url(#c)'|clip-rule='evenodd'|color='green'|color-interpolation='linearRGB'|color-interpolation-filters='sRGB'|color-profile='sRGB'|color-rendering='optimizeSpeed'|cursor='move'|direction='rtl'|display='inline'|dominant-baseline='central'|enable-background='new'|fill='red'|fill-opacity='0.5'|fill-rule='evenodd'|filter='url(#f)'|flood-color='blue'|flood-opacity='0.25'|font-family='Arial'|font-size='12'|font-size-adjust='0.5'|font-stretch='expanded'|font-style='italic'|font-variant='small-caps'|font-weight='bold'|glyph-orientation-horizontal='90'|glyph-orientation-vertical='90'|image-rendering='optimizeSpeed'|kerning='2'|letter-spacing='1'|lighting-color='red'|marker-end='url(#k)'|marker-mid='url(#k)'|marker-start='url(#k)'|mask='url(#m)'|opacity='0.5'|overflow='hidden'|pointer-events='all'|shape-rendering='crispEdges'|stop-color='red'|stop-opacity='0.5'|stroke='url(#l)'|stroke-dasharray='1 2'|stroke-dashoffset='2'|stroke-linecap='round'|stroke-linejoin='round'|stroke-miterlimit='2'|stroke-opacity='0.5'|stroke-width='2'|text-anchor='end'|text-decoration='underline'|text-rendering='optimizeSpeed'|unicode-bidi='embed'|visibility='hidden'|word-spacing='2'|writing-mode='tb'}" } }
macro_rules! defs { () => { "<defs><clipPath id='c'><path d='M 1 1 H 5 V 5 Z'/></clipPath><filter id='f'><feFlood/></filter><mask id='m'><path d='M 1 1 H 5 V 5 Z'/></mask><marker id='k'><path d='M 1 1 H 5 V 5 Z'/></marker><linearGradient id='l'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient></defs>" } }
macro_rules! other { () => { "{|id='i'|transform='scale(2)'|xml:space='preserve'|x:a='b'|d='M 1 1 L 5 5'|x='5' y='6'|points='1 2 3 4'|width='10%'|unknown='1'|viewBox='0 0 5 5'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P17 every property", tpl: concat!("<svg>", defs!(), "<g ", prop!(), " ", other!(), "><path d='M 1 1 L 5 5'/></g></svg>"), opt: no },
    Case { name: "P17 every property with the others", tpl: concat!("<svg>", defs!(), "<path d='M 1 1 L 5 5' {1:fill='red' |}{2:stroke='blue' |}{3:stroke-width='2' |}{4:opacity='0.5' |}{5:font-size='12' |}{6:letter-spacing='1'|} {word-spacing='5'|marker-mid='url(#k)'|clip-rule='evenodd'|visibility='hidden'|}/></svg>"), opt: no },
    Case { name: "P17 number of properties", tpl: concat!("<svg{| fill='blue' stroke='red'}>", defs!(), "<{rect|text|g|stop|x:a|path} fill='red' ", "stroke='url(#l)'{| fill-opacity='0.5'}{| stroke-opacity='0.25'}{| opacity='0.5'}{| stroke-width='2'}{| clip-rule='evenodd'}{| id='a'}{| transform='scale(2)'}{| x:fill='b'} d='M 1 1 L 5 5'/></svg>"), opt: no },
    Case { name: "P17 numbers", tpl: "<svg><path d='M 1 1 L 5 5' stroke-width='{@j|@jmm|@j%|0.1|-.5|1e3|0.000001}' {|stroke-dasharray='@z 2 {3 4|@z 5%}'} {|font-size='{1.5em|0.125|12pt}'} {|opacity='{0|@O|1}'}/></svg>", opt: no },
    Case { name: "P17 strings and colours", tpl: "<svg><text {|font-family='{Arial, serif|Times New Roman|a-b_c}'|font-family='&quot;A B&quot;, serif'|font-family=\"'A'\"|font-family=\"'A', B\"|font-family='a;b'|font-family='a:b'|font-family='A/*b*/'|font-family='a&amp;b'|font-family='a&#59;b'} {|fill='{#123456|#abc|rgb(1,2,3)|none|url(#l)}'} {|stroke='{white|#ff0000}'} {|baseline-shift='{10%|super|1}'} {|enable-background='new'} {|text-decoration='underline'} {|cursor='{pointer|move}'} color='red'>a</text><linearGradient id='l'><stop/><stop offset='1'/></linearGradient></svg>", opt: no },
    Case { name: "P17 styles and classes", tpl: "<svg><style>g{|, path}{|.k} [[fill-rule:evenodd]]</style><g style='{|fill:red|fill:red;stroke:blue|fill:red;opacity:.5}' {|stroke='green'} {|opacity='0.5'}><path d='M 1 1 L 5 5' {|style='stroke-width:2;fill-opacity:0.5'}/></g></svg>", opt: no },
    Case { name: "P17 with other tasks", tpl: concat!("<svg>", defs!(), "<path d='M 1 1 L 5 5' {1:fill='red'|} {2:stroke='blue'|stroke='url(#l)'} stroke-width='{1|@p}' {|stroke-linejoin='round' stroke-linecap='square'} {|opacity='0.5'} {|clip-path='url(#c)'} {|mask='url(#m)'}/>{|<text fill='red' font-size='12'>a</text>}</svg>"), opt: dflt },
];

fn is_pres(name: &str) -> bool {
    match AttributeId::from_name(name) { Some(a) => a.is_presentation(), None => false }
}

/// name and text of every attribute, sorted by name
fn texts(n: &Node, w: &WriteOptions) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = n.attributes().iter().filter(|a| a.visible).map(|a| {
        let name = match a.name { Name::Id(i) => i.name().to_string(), Name::Name(ref s) => s.clone() };
        let mut b = Vec::new();
        a.value.write_buf_opt(w, &mut b);
        (name, String::from_utf8(b).unwrap())
    }).collect();
    if n.has_id() { v.push(("id".to_string(), n.id().to_string())); }
    v.sort();
    v
}

/// the declarations of a style attribute
fn decls(s: &str) -> Option<Vec<(String, String)>> {
    let mut v = Vec::new();
    for d in s.split(';') {
        let i = match d.find(':') { Some(i) => i, None => return None };
        v.push((d[..i].trim().to_string(), d[i + 1..].trim().to_string()));
    }
    v.sort();
    Some(v)
}

fn elements(doc: &Document) -> Vec<Node> {
    doc.root().descendants().filter(|n| n.node_type() == NodeType::Element).collect()
}

fn wopts() -> WriteOptions {
    let mut w = WriteOptions::default();
    match sym::pick("write options", 3) {
        0 => {}
        1 => {
            w.trim_hex_colors = true;
            w.remove_leading_zero = true;
            w.use_compact_path_notation = true;
            w.remove_duplicated_path_commands = true;
            w.use_implicit_lineto_commands = true;
            w.simplify_transform_matrices = true;
            w.indent = Indent::None;
        }
        _ => {
            w.list_separator = ListSeparator::Comma;
            w.use_single_quote = true;
            w.attributes_order = AttributesOrder::Specification;
        }
    }
    w
}

pub fn run(c: &Case) {
    let t = tpl::expand(c.tpl);
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    let w = wopts();
    let mode = [StyleJoinMode::None, StyleJoinMode::Some, StyleJoinMode::All][sym::pick("mode", 3)];
    let mut a = t.doc();
    let mut b = t.doc();
    opt.join_style_attributes = StyleJoinMode::None;
    if svgcleaner::cleaner::clean_doc(&mut a, &opt, &w).is_err() { return; }
    opt.join_style_attributes = mode;
    show("before", &b);
    sym::check(svgcleaner::cleaner::clean_doc(&mut b, &opt, &w).is_ok(), "P17 refused only when joining");
    show("after", &b);
    let (ea, eb) = (elements(&a), elements(&b));
    sym::check(ea.len() == eb.len(), "P17 joining changes the elements");
    for i in 0..ea.len() {
        sym::check(ea[i].tag_name().as_ref().map(|n| (**n).clone()) == eb[i].tag_name().as_ref().map(|n| (**n).clone()), "P17 joining changes the elements");
        let (ta, tb) = (texts(&ea[i], &w), texts(&eb[i], &w));
        let svg = ea[i].tag_id().is_some();
        let can = |x: &(String, String)| is_pres(&x.0) && !x.1.contains(|c| c == '\'' || c == '"' || c == '&' || c == ';');
        let n = ta.iter().filter(|x| svg && can(x)).count();
        let join = n > 0 && match mode { StyleJoinMode::None => false, StyleJoinMode::Some => n > 5, StyleJoinMode::All => true };
        if !join { sym::check(ta == tb, "P17 attributes change although the style is not joined"); continue; }
        let mut style = None;
        let mut rest = Vec::new();
        for x in tb { if x.0 == "style" { style = Some(x.1) } else { rest.push(x) } }
        let style = match style { Some(s) => s, None => { sym::check(false, "P17 the style is not joined"); return; } };
        let (pres, other): (Vec<_>, Vec<_>) = ta.into_iter().partition(|x| can(x));
        sym::check(other == rest, "P17 joining changes other attributes");
        sym::check(decls(&style) == Some(pres), "P17 the style has not exactly the properties of the element");
    }
    // what is written is read back with the same values
    let mut buf = Vec::new();
    svgcleaner::cleaner::write_buffer(&b, &w, &mut buf);
    let s = String::from_utf8(buf).unwrap();
    let r = match svgcleaner::cleaner::parse_data(&s, &tpl::parse_opts()) { Ok(d) => d, Err(_) => { sym::check(false, "P17 the written document does not parse"); return; } };
    show("read", &r);
    let er = elements(&r);
    sym::check(ea.len() == er.len(), "P17 the written document has other elements");
    let all = |_: &Attribute| true;
    for i in 0..ea.len() {
        let (x, y): (Vec<(String, V)>, Vec<(String, V)>) = (attrs(&ea[i], &all), attrs(&er[i], &all));
        sym::check(x.len() == y.len(), "P17 the written document has other attributes");
        let mut ok = true;
        for j in 0..x.len() { ok &= x[j].0 == y[j].0 && veq(&x[j].1, &y[j].1); }
        sym::check(ok, "P17 the written document has other values");
    }
    sym::cover(c.name);
}
