use crate::common::*;
use crate::render::{items_eq, render, trace_doc};
use crate::{sym, tpl};
use svgdom::*;

fn un(o: &mut CleaningOptions) { o.remove_unreferenced_ids = true; }
fn tr(o: &mut CleaningOptions) { o.trim_ids = true; }
fn ids(o: &mut CleaningOptions) {
    match sym::pick("ids", 4) {
        0 => {}
        1 => un(o),
        2 => tr(o),
        _ => { un(o); tr(o); }
    }
}
fn dedup(o: &mut CleaningOptions) {
    ids(o);
    o.remove_dupl_linear_gradients = true;
    o.remove_dupl_radial_gradients = true;
    o.remove_dupl_fe_gaussian_blur = true;
    o.merge_gradients = true;
    o.regroup_gradient_stops = true;
}
fn grp(o: &mut CleaningOptions) {
    ids(o);
    o.ungroup_groups = true;
    o.ungroup_defs = true;
    o.group_by_style = true;
    o.resolve_use = true;
}
fn inv(o: &mut CleaningOptions) { ids(o); o.remove_unused_defs = true; o.remove_invisible_elements = true; }
fn all(o: &mut CleaningOptions) { dedup(o); grp(o); inv(o); o.remove_default_attributes = true; o.remove_needless_attributes = true; }
fn more(o: &mut CleaningOptions) {
    match sym::pick("options", 4) { 0 => dedup(o), 1 => grp(o), 2 => inv(o), _ => all(o) }
}

/// the labels (`xml:lang`) of the elements in these documents never change
pub static CASES: &[Case] = &[
    Case { name: "P09 ids of paint and effects", tpl: "<svg xml:lang='r' {|id='r'}><linearGradient xml:lang='a' id='{z|a|aa|lg}'/><defs xml:lang='d' {|id='c'}>{|<clipPath xml:lang='b' id='b'><rect xml:lang='c' id='e' width='1' height='2'/></clipPath>}<marker xml:lang='m' id='m'/><mask xml:lang='k' id='B'/><filter xml:lang='f' id='f'/></defs><g xml:lang='g' {|id='d'} {|fill='url(#{z|a|aa|lg})'} {|mask='url(#B)'}><path xml:lang='p' {|id='Z'} d='M 1 1 L 5 5' {|stroke='url(#{z|a|aa|lg})'} {|clip-path='url(#b)'|filter='url(#f)'|marker-mid='url(#m)'}/></g></svg>", opt: ids },
    Case { name: "P09 ids of links", tpl: "<svg xml:lang='r' {|id='r'}><{path|symbol|g} xml:lang='a' {id='a'|id='0-x'|}/><text xml:lang='b' id='b'>a<tref xml:lang='c' {|xlink:href='#b2'}/><textPath xml:lang='d' {|xlink:href='#a2'}/></text><text xml:lang='e' id='b2'>b</text><path xml:lang='f' id='a2' d='M 1 1 H 5'/><a xml:lang='g' xlink:href='{#a2|http://x/#a2|}' {|id='g'}><use xml:lang='h' xlink:href='#{a2|b2}' {|id='h'}/></a><filter xml:lang='i' id='i' {|xlink:href='#j'}><feImage xml:lang='l' xlink:href='{#a2|x.png|#b}'/></filter><filter xml:lang='j' id='j'/><pattern xml:lang='k' id='k' {|xlink:href='#p'}/><pattern xml:lang='p' id='p'/></svg>", opt: ids },
    Case { name: "P09 ids in other attributes", tpl: "<svg xml:lang='r'><cursor xml:lang='a' id='a'/><color-profile xml:lang='b' id='b'/><linearGradient xml:lang='c' id='c'/><g xml:lang='d' id='d'><path xml:lang='e' {|fill='url(#c)'|fill='url(#none)'}/><altGlyph xml:lang='f' {|xlink:href='#d'}/></g></svg>", opt: ids },
    Case { name: "P09 ids of views", tpl: "<svg xml:lang='r'><view xml:lang='g' {|id='v'} {|viewTarget='#d'|viewTarget='d'}/><path xml:lang='p' {id='d'|} d='M 1 1 L 5 5'/><a xml:lang='a' {|xlink:href='#d'}/></svg>", opt: ids },
    Case { name: "P09 ids of elements that are not SVG", tpl: "<svg xml:lang='r' xmlns:x='y'><x:a xml:lang='a' id='{a|b|c}'/><g xml:lang='b' {|id='d'}><x:b id='e'/><path xml:lang='c' {|id='f'} {|fill='url(#g)'}/></g><linearGradient xml:lang='d' id='g'/></svg>", opt: ids },
    Case { name: "P09 ids of elements with text", tpl: "<svg xml:lang='r'><title xml:lang='t' {|id='t'}>x</title><desc xml:lang='d' id='{a|d}'>y</desc><style xml:lang='s' id='s'/><metadata xml:lang='m' {|id='m'}/><script0 id='q'/><g xml:lang='g' {|id='g' }><!-- c --><path xml:lang='p' id='{c|p}' {|fill='url(#l)'}/></g><linearGradient xml:lang='l' id='l'>{|<stop xml:lang='o' id='o'/><stop xml:lang='w' offset='1'/>}</linearGradient></svg>", opt: ids },
    Case { name: "P09 references after removing duplicates", tpl: "<svg><linearGradient id='a' x2='{1|0.5}'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><linearGradient id='b' x2='0.5'>{<stop offset='0'/><stop offset='1' stop-color='red'/>|}</linearGradient><linearGradient id='c' {|xlink:href='#{a|b}'} {|x2='0.5'}/><filter id='f'><feGaussianBlur stdDeviation='1'/></filter><filter id='h'><feGaussianBlur stdDeviation='1'/></filter><g fill='url(#{a|b|c})'><path d='M 1 1 L 5 5 L 1 6' {|fill='url(#{a|c})'} {|filter='url(#{f|h})'}/><circle r='3' {|stroke='url(#b)'}/></g></svg>", opt: more },
    Case { name: "P09 references after regrouping", tpl: "<svg><defs><clipPath id='c'>{|<rect width='1' height='2'/>}</clipPath><path id='q' d='M 1 1 L 5 5 L 1 6' {|fill='url(#a)'}/><linearGradient id='a'><stop offset='0'/>{|<stop offset='1' stop-color='red'/>}</linearGradient></defs><g {|id='g'} {|clip-path='url(#c)'}>{|<use xlink:href='#q'/>}{|<use xlink:href='#q' x='1'/>}<rect width='3' height='4' {|fill='url(#a)'} {|id='k'}/></g>{|<use xlink:href='#g'/>|<use xlink:href='#k'/>}</svg>", opt: more },
    Case { name: "P09 many ids", tpl: "<svg/>", opt: tr },
];

fn label(n: &Node) -> String {
    let at = n.attributes();
    if let Some(&AttributeValue::String(ref s)) = at.get_value(AttributeId::XmlLang) { return s.clone(); }
    match n.tag_id() { Some(t) => t.name().to_string(), None => "?".to_string() }
}
/// (from, attribute, to) for everything that refers to an element, and every element with an id
fn graph(doc: &Document) -> (Vec<(String, u32, String)>, Vec<String>) {
    let mut g = Vec::new();
    let mut named = Vec::new();
    for n in doc.descendants() {
        if n.node_type() != NodeType::Element { continue; }
        let l = label(&n);
        if n.has_id() { named.push(l.clone()); }
        for a in n.attributes().iter() {
            let id = a.id().map(|t| t as u32).unwrap_or(9999);
            match a.value {
                AttributeValue::Link(ref t) | AttributeValue::FuncLink(ref t) => g.push((l.clone(), id, label(t))),
                AttributeValue::String(ref s) => {
                    // a reference kept as text
                    let t = if let Some(k) = s.find("url(#") { let e = s[k..].find(')').unwrap_or(0); Some(s[k + 5..k + e].to_string()) }
                        else if s.starts_with('#') { Some(s[1..].to_string()) } else { None };
                    if let Some(t) = t {
                        let to = doc.descendants().find(|m| m.node_type() == NodeType::Element && *m.id() == t);
                        g.push((l.clone(), id, to.map(|m| label(&m)).unwrap_or("nothing".to_string())));
                    }
                }
                _ => {}
            }
        }
    }
    g.sort();
    named.sort();
    (g, named)
}
/// every reference leads to an element of the document, ids are unique
fn structure(doc: &Document) {
    let mut seen: Vec<String> = Vec::new();
    for n in doc.descendants() {
        if n.node_type() != NodeType::Element { continue; }
        if n.has_id() {
            sym::check(!seen.iter().any(|s| *s == *n.id()), "P09 an id is given to two elements");
            seen.push(n.id().clone());
        }
        for a in n.attributes().iter() {
            if let AttributeValue::Link(ref t) | AttributeValue::FuncLink(ref t) = a.value {
                sym::check(doc.descendants().any(|p| p == *t), "P09 a reference to a removed element");
                sym::check(t.has_id(), "P09 a referenced element has lost its id");
            }
        }
    }
}

/// enough elements for ids of one, two and three letters
fn many() {
    let n = [1, 51, 52, 53, 54, 115, 116, 3276, 3277, 3338][sym::pick("count", 10)];
    let mut doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'/>").unwrap();
    let mut svg = doc.svg_element().unwrap();
    for _ in 0..n {
        let mut e = doc.create_element(ElementId::G);
        e.set_id("x");
        svg.append(&e);
    }
    let mut opt = CleaningOptions::default();
    tr(&mut opt);
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &WriteOptions::default());
    sym::check(r.is_ok(), "a supported document was refused");
    // as bits of the alphabet: unique, not empty, not starting with a digit
    let mut seen = vec![false; 63 * 63 * 63];
    let mut cnt = 0;
    for n in doc.descendants() {
        if !n.is_tag_name(ElementId::G) { continue; }
        let id = n.id();
        let b = id.as_bytes();
        cnt += 1;
        sym::check(b.len() > 0 && b.len() <= 3, "P09 many ids: not a short id");
        sym::check(!(b[0] >= b'0' && b[0] <= b'9'), "P09 many ids: an id starts with a digit");
        let mut k = 0usize;
        for c in b {
            let d = match *c { b'a'..=b'z' => c - b'a', b'A'..=b'Z' => c - b'A' + 26, b'0'..=b'9' => c - b'0' + 52, _ => 255 };
            sym::check(d != 255, "P09 many ids: an unexpected character");
            k = k * 63 + d as usize + 1;
        }
        sym::check(!seen[k], "P09 many ids: an id is given twice");
        seen[k] = true;
    }
    sym::check(cnt == n, "P09 many ids: an element is lost");
    sym::cover("P09 many ids");
}

pub fn run(c: &Case) {
    if c.name == "P09 many ids" { return many(); }
    let full = c.name.starts_with("P09 ids");
    let mut doc = tpl::doc(c.tpl);
    let before = render(&doc, true);
    let g0 = graph(&doc);
    show("before", &doc);
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &WriteOptions::default());
    sym::check(r.is_ok(), "a supported document was refused");
    show("after", &doc);
    trace_doc(&doc);
    structure(&doc);
    let check = |doc: &Document, g0: &(Vec<(String, u32, String)>, Vec<String>)| {
        if full {
            let g = graph(doc);
            sym::check(g.0 == g0.0, "P09 a reference leads to an other element");
            // referenced elements keep an id, without the option all of them do
            for n in &g0.1 {
                let needed = !opt.remove_unreferenced_ids || g0.0.iter().any(|l| l.2 == *n);
                if needed { sym::check(g.1.iter().any(|m| m == n), "P09 an id is lost"); }
            }
            for n in &g.1 { sym::check(g0.1.iter().any(|m| m == n), "P09 an id out of nothing"); }
        }
        sym::check(items_eq(&before, &render(doc, true)), c.name);
    };
    check(&doc, &g0);
    // as the document will be read again
    let mut buf = Vec::new();
    svgcleaner::cleaner::write_buffer(&doc, &WriteOptions::default(), &mut buf);
    let text = match String::from_utf8(buf) { Ok(t) => t, Err(_) => sym::fail("not UTF-8") };
    #[cfg(feature = "replay")]
    sym::note(&text);
    let again = match svgcleaner::cleaner::parse_data(&text, &tpl::parse_opts()) {
        Ok(d) => d,
        Err(_) => { sym::check(false, "P09 the written document is not read again"); return; }
    };
    structure(&again);
    check(&again, &g0);
    sym::cover(c.name);
}
