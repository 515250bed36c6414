use crate::common::*;
use crate::render::*;
use crate::{sym, tpl};
use svgdom::*;
use svgdom::{ElementId as E, AttributeId as A, ValueId as K};

fn no(_: &mut CleaningOptions) {}

macro_rules! kw { () => { "{inherit|currentColor|red}" } }
macro_rules! inh { () => { "{|fill='inherit'|stroke='inherit'|stroke-width='inherit'|fill-opacity='inherit'|visibility='inherit'|font-size='inherit'|marker-start='inherit'|stroke-dasharray='inherit'|clip-rule='inherit'}" } }
macro_rules! val { () => { "{|fill='url(#l)'|fill='blue' stroke='none'|stroke='red'|stroke-width='3'|fill-opacity='0.5'|visibility='hidden'|font-size='20'|stroke-dasharray='1 2'|clip-rule='evenodd'}" } }
macro_rules! own { () => { "{|opacity='0.5'|opacity='inherit'|clip-path='url(#c)'|clip-path='inherit'|mask='url(#m)'|mask='inherit'|filter='url(#f)'|filter='inherit'|display='inherit'|display='none'|overflow='inherit'}" } }

/// elements with a label (`xml:lang`) are compared
// values that depend on other values
macro_rules! rel { () => { "{|font-size='2em'|font-size='150%'|font-size='larger'|font-size='20'|font-weight='bolder'|font-stretch='wider'|stroke-width='1em'|letter-spacing='1em'|stroke-dasharray='1em 2'|stroke-width='1em' font-size='20'|stroke-width='1em' font-size='2em'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P11 inherit of an inherited property", tpl: concat!("<svg xml:lang='r' ", val!(), "><linearGradient id='l'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><g xml:lang='a' ", val!(), "><g xml:lang='b' ", inh!(), "><path xml:lang='c' ", inh!(), " d='M 1 1 L 5 5'/></g></g></svg>"), opt: no },
    Case { name: "P11 inherit of an own property", tpl: concat!("<svg xml:lang='r'><defs><clipPath id='c'><rect width='9' height='5'/></clipPath><mask id='m'><rect width='9' height='4'/></mask><filter id='f'><feFlood/></filter></defs><g xml:lang='a' ", own!(), "><g xml:lang='b' ", own!(), "><path xml:lang='c' ", own!(), " d='M 1 1 L 5 5'/></g></g></svg>"), opt: no },
    Case { name: "P11 currentColor", tpl: concat!("<svg xml:lang='r' {|color='lime'|color='inherit'}><g xml:lang='a' {|color='blue'|color='inherit'} {|fill='currentColor'}><{2:g|a|switch} xml:lang='b' {|color='red'|color='inherit'} {|stroke='currentColor'}><path xml:lang='c' {|fill='", kw!(), "'} {|stroke='", kw!(), "'} {|color='#123'} d='M 1 1 L 5 5'/></{2:g|a|switch}></g></svg>"), opt: no },
    Case { name: "P11 inherit of elements linked by use", tpl: concat!("<svg><{1:g|defs|symbol id='q'} {|fill='red' stroke='blue' stroke-width='2' visibility='visible'}><path id='p' d='M 1 1 L 5 5' {|fill='inherit'} {|stroke='inherit'|stroke-width='inherit'|visibility='inherit'} {|opacity='inherit'|display='inherit'}/></{1:g|defs|symbol}><g {|fill='lime'|stroke='lime' stroke-width='4'|visibility='hidden'}><use {xlink:href='#p'|xlink:href='#q'} {|opacity='0.5'|fill='#456'|stroke='inherit'}/></g></svg>"), opt: no },
    Case { name: "P11 currentColor of elements linked by use", tpl: concat!("<svg {|color='lime'}><{1:g|defs} {|color='red'}><g id='q' {|color='blue'}><path id='p' d='M 1 1 L 5 5' {|fill='currentColor'|stroke='currentColor'} {|color='inherit'}/></g></{1:g|defs}><g {|color='lime'|color='red'}><use id='u' xlink:href='{#p|#q}' {|color='red'|color='inherit'}/></g>{|<use xlink:href='{#p|#u|#q}' {|color='red'|color='blue'}/>}</svg>"), opt: no },
    Case { name: "P11 keywords in definitions", tpl: concat!("<svg {|color='lime'}><g {|color='blue'|stop-color='red'} {|fill='lime'}><linearGradient id='l' {|color='red'|color='inherit'|stop-color='blue'}><stop offset='0' {|color='red'} stop-color='{blue|inherit|currentColor}'/><stop offset='1' {|stop-opacity='inherit'|stop-opacity='0.5'}/></linearGradient><clipPath id='c' {|clip-rule='evenodd'}><path d='M 1 1 L 5 5 L 1 5' {|clip-rule='inherit'}/></clipPath><mask id='m' {|fill='red'|color='red'}><path d='M 1 1 L 5 5 L 1 5' {|fill='inherit'|fill='currentColor'}/></mask></g><rect width='5' height='5' {|fill='url(#l)'} {|clip-path='url(#c)'|mask='url(#m)'}/></svg>"), opt: no },
    Case { name: "P11 keywords in filters, patterns and markers", tpl: concat!("<svg {|color='lime'}><g {|color='blue'|flood-color='red'|lighting-color='red'}><filter id='f' {|color='red'|flood-color='blue'|lighting-color='blue'}><feFlood flood-color='{red|inherit|currentColor}'/><feDiffuseLighting {|lighting-color='inherit'|lighting-color='currentColor'}><feDistantLight azimuth='3'/></feDiffuseLighting></filter><pattern id='p' width='5' height='5' {|fill='red'|color='red'}><rect width='3' height='3' {|fill='inherit'|fill='currentColor'}/></pattern><marker id='m' {|fill='red'|color='red'}><rect width='3' height='3' {|fill='inherit'|fill='currentColor'}/></marker></g><path d='M 1 1 L 5 5' {|color='#123'} {|filter='url(#f)'|fill='url(#p)'|marker-end='url(#m)'} {|fill='#456'}/></svg>"), opt: no },
    Case { name: "P11 text keywords", tpl: concat!("<svg xml:lang='r' {|fill='red'|text-anchor='end'|font-family='a'}><text xml:lang='a' {|fill='lime'|color='red'|font-weight='bold'|letter-spacing='2'} x='1'>a<tspan xml:lang='b' {|fill='inherit'|fill='currentColor'|text-anchor='inherit'|font-family='inherit'|font-weight='inherit'|letter-spacing='inherit'|baseline-shift='inherit'|text-decoration='inherit'} {|font-size='inherit'|direction='inherit'|kerning='inherit'}>b</tspan>c</text></svg>"), opt: no },
    Case { name: "P11 other own properties set to inherit", tpl: concat!("<svg xml:lang='r'><svg xml:lang='a' {|overflow='visible'|overflow='hidden'} {|enable-background='new'}><svg xml:lang='b' width='5' height='5' {|overflow='inherit'|enable-background='inherit'}><text xml:lang='d' {|unicode-bidi='embed'|dominant-baseline='middle'|alignment-baseline='middle'|baseline-shift='2'}>a<tspan xml:lang='c' {|unicode-bidi='inherit'|dominant-baseline='inherit'|alignment-baseline='inherit'|baseline-shift='inherit'}>b</tspan></text></svg></svg></svg>"), opt: no },
    Case { name: "P11 opacity out of range", tpl: "<svg><linearGradient id='l'><stop offset='0' stop-opacity='{-1|0.5|2}'/><stop offset='1' stop-color='red'/></linearGradient><g {|opacity='{-1|0.5|2}'}><path d='M 1 1 L 5 5 L 1 5' {|fill='url(#l)'} {|fill-opacity='{-1|0.5|2}'} {|opacity='{-1|0.5|2}'} {|stroke='red'} {|stroke-opacity='{-1|0.5|2}'}/></g></svg>", opt: no },
    Case { name: "P11 stop offsets", tpl: "<svg><{1:linear|radial}Gradient id='l'>{|<title>t</title>|<!-- c -->| a }<stop {|offset='@i'|offset='50%'|offset='-0.5'|offset='0.75'}/>{|<desc/>|<animation/>}<stop offset='{@q|25%|1.5|0.25|-1}' stop-color='red'/>{|<stop offset='{@q|100%|0.5|200%|0}' stop-color='blue'/>}</{1:linear|radial}Gradient><path d='M 1 1 L 5 5' fill='url(#l)'/></svg>", opt: no },
    Case { name: "P11 rect sizes", tpl: "<svg><rect {|width='{@i|-5mm|50%|-1%}'} {|height='{@i|3em|-3em}'} {|rx='{@i|-1mm|1mm}'} {|ry='{@i|-2%|2%}'} {|stroke='red'} {|fill='none'}/><path d='M 1 1 L 5 5'/></svg>", opt: no },
    Case { name: "P11 points", tpl: "<svg><{1:polyline|polygon} {|points=''|points='@i'|points='@i @i'|points='1 @i 3'|points='1 2 3 @i'|points='1 2 3 @i 5'|points='1 2 3 4 5 6 7'} {|stroke='red'} {|fill='none'}/><path d='M 1 1 L 5 5'/></svg>", opt: no },
    Case { name: "P11 marker shorthand as an attribute", tpl: "<svg xml:lang='r'><marker id='m'><rect width='3' height='3'/></marker><g xml:lang='a' {|marker-start='url(#m)'}><path xml:lang='b' d='M 1 1 L 5 5' {|marker='url(#m)'|marker='none'} {|marker-end='url(#m)'}/></g></svg>", opt: no },
    Case { name: "P11 inherit of relative values", tpl: concat!("<svg xml:lang='r' {|font-weight='bold'}><g xml:lang='a' font-size='20' font-weight='bold' font-stretch='normal' stroke-width='1' letter-spacing='1' stroke-dasharray='1'><g xml:lang='b' ", rel!(), "><g xml:lang='c' {|font-size='inherit'|font-weight='inherit'|font-stretch='inherit'|stroke-width='inherit'|letter-spacing='inherit'|stroke-dasharray='inherit'|stroke-width='inherit' font-size='10'|letter-spacing='inherit' font-size='3em'|stroke-dasharray='inherit' font-size='inherit'|font-weight='lighter' font-size='150%'}><text xml:lang='d' stroke='red' {|font-size='inherit'|font-weight='inherit'|font-stretch='inherit'|stroke-width='inherit'|letter-spacing='inherit'|stroke-dasharray='inherit'|stroke-width='inherit' font-size='10'|letter-spacing='inherit' font-size='3em'|stroke-dasharray='inherit' font-size='inherit'|font-weight='lighter' font-size='150%'}>a</text></g></g></g></svg>"), opt: no },
];

fn elem(n: &Node) -> bool { n.node_type() == NodeType::Element }
fn inherits(a: A) -> bool { PROPS.iter().any(|p| *p == a) }
fn set(n: &Node, a: A) -> bool { n.attributes().contains(a) }

/// where `n` takes inherited values from: its parent, and the `use` elements that show it
fn above(n: &Node) -> Vec<Node> {
    let mut v: Vec<Node> = n.linked_nodes().filter(|l| l.is_tag_name(E::Use)).collect();
    if let Some(p) = n.parent() { if elem(&p) { v.push(p); } }
    v
}
fn colors(n: &Node, depth: u32, out: &mut Vec<V>) {
    if depth > 12 { return; }
    match attr(n, A::Color) {
        Some(V::Kw(_)) | None => {
            let v = above(n);
            if v.is_empty() { out.push(V::None_); }
            for p in v { colors(&p, depth + 1, out); }
        }
        Some(v) => out.push(v),
    }
}
fn owns(n: &Node, a: A, depth: u32, out: &mut Vec<Option<V>>) {
    if depth > 12 { return; }
    match attr(n, a) {
        Some(V::Kw(K::Inherit)) => for p in above(n) { owns(&p, a, depth + 1, out); },
        v => out.push(v),
    }
}
/// no single value replaces a keyword of this document
fn unresolvable(doc: &Document) -> bool {
    for n in doc.descendants() {
        if !elem(&n) { continue; }
        for at in n.attributes().iter() {
            let id = match at.id() { Some(i) => i, None => continue };
            let kw = match at.value { AttributeValue::PredefValue(k) => k, _ => continue };
            if kw == K::CurrentColor || (kw == K::Inherit && id == A::Color) {
                let mut v = Vec::new();
                colors(&n, 0, &mut v);
                if v.iter().any(|c| !veq(c, &v[0]) || veq(c, &V::None_)) { return true; }
            } else if kw == K::Inherit {
                if inherits(id) || id == A::TextDecoration {
                    let mut c = n.parent();
                    let mut any = false;
                    while let Some(p) = c { if elem(&p) && set(&p, id) { any = true; } c = p.parent(); }
                    if !any { return true; }
                } else {
                    let mut v = Vec::new();
                    for p in above(&n) { owns(&p, id, 0, &mut v); }
                    for o in &v {
                        let same = match (o, &v[0]) { (&Some(ref a), &Some(ref b)) => veq(a, b), (&None, &None) => true, _ => false };
                        if !same { return true; }
                    }
                }
            }
        }
    }
    false
}
/// stops after the first one need an offset
fn no_offset(doc: &Document) -> bool {
    doc.descendants().filter(|n| n.is_tag_name(E::LinearGradient) || n.is_tag_name(E::RadialGradient)).any(|g|
        g.children().filter(|c| c.is_tag_name(E::Stop)).skip(1).any(|c| !set(&c, A::Offset)))
}

const OWN: [A; 12] = [A::Opacity, A::ClipPath, A::Mask, A::Filter, A::Display, A::Overflow, A::UnicodeBidi, A::DominantBaseline, A::AlignmentBaseline, A::BaselineShift, A::TextDecoration, A::EnableBackground];

fn name(v: V) -> V {
    match v { V::Ref(n) => V::Str(format!("{:?} {}", n.tag_id(), *n.id())), v => v }
}
/// An element below `defs` or `symbol`, outside resources, has a look only where a `use` puts
/// it; `render` compares that.
fn by_use_only(n: &Node) -> bool {
    let mut used = false;
    let mut p = n.parent();
    while let Some(a) = p {
        match a.tag_id() {
            Some(E::Defs) | Some(E::Symbol) => used = true,
            Some(E::LinearGradient) | Some(E::RadialGradient) | Some(E::Filter) | Some(E::ClipPath)
            | Some(E::Mask) | Some(E::Pattern) | Some(E::Marker) => return false,
            _ => {}
        }
        p = a.parent();
    }
    used
}

fn labelled(doc: &Document) -> Vec<(String, Style, Vec<V>)> {
    let mut r = Vec::new();
    for n in doc.descendants() {
        if !elem(&n) { continue; }
        let l = match n.attributes().get_value(A::XmlLang) { Some(&AttributeValue::String(ref s)) => s.clone(), _ => continue };
        if by_use_only(&n) { continue; }
        let p = n.parent();
        let mut s = style_at(&n);
        if veq(&s.0[COLOR], &V::None_) { s.0[COLOR] = V::Col(0, 0, 0); }
        for i in 0..NPROP { s.0[i] = name(s.0[i].clone()); }
        let o = OWN.iter().map(|a| own(&n, *a, p.as_ref()).map(name).unwrap_or(V::None_)).collect();
        r.push((l, s, o));
    }
    r
}

pub fn run(c: &Case) {
    let mut doc = tpl::doc(c.tpl);
    let before = render(&doc, false);
    let st = labelled(&doc);
    let (u, s) = (unresolvable(&doc), no_offset(&doc));
    show("before", &doc);
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &CleaningOptions::default(), &WriteOptions::default());
    if let Err(e) = r {
        #[cfg(feature = "replay")]
        sym::note(&format!("error: {}", e));
        let _ = e;
        sym::check(u || s, "P11 refused without a reason");
        sym::cover(c.name);
        return;
    }
    show("after", &doc);
    trace_doc(&doc);
    for n in doc.descendants() {
        if !elem(&n) { continue; }
        for at in n.attributes().iter() {
            if let AttributeValue::PredefValue(k) = at.value {
                sym::check(k != K::Inherit && k != K::CurrentColor, "P11 a keyword is not resolved");
            }
        }
    }
    sym::check(items_eq(&before, &render(&doc, false)), c.name);
    let st2 = labelled(&doc);
    sym::check(st.len() == st2.len(), "P11 an element is lost");
    for (a, b) in st.iter().zip(st2.iter()) {
        sym::check(a.0 == b.0, "P11 the order of elements");
        for i in 0..NPROP { sym::check(veq(&a.1 .0[i], &b.1 .0[i]), "P11 a computed value has changed"); }
        for i in 0..OWN.len() { sym::check(veq(&a.2[i], &b.2[i]), "P11 an own value has changed"); }
    }
    sym::cover(c.name);
}
