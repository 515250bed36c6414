use crate::common::*;
use crate::{sym, tpl};
use svgdom::*;
use svgdom::{ElementId as E, AttributeId as A};

fn no(_: &mut CleaningOptions) {}
fn some(o: &mut CleaningOptions) {
    match sym::pick("options", 3) {
        0 => {}
        1 => { o.remove_unused_defs = true; o.remove_invisible_elements = true; o.remove_title = true; o.remove_needless_attributes = true; o.ungroup_groups = true; }
        _ => { o.trim_ids = true; o.remove_unreferenced_ids = true; o.join_style_attributes = StyleJoinMode::All; o.remove_version = true; o.convert_shapes = true; o.paths_to_relative = true; }
    }
}

macro_rules! ev { () => { "{onactivate|onclick|onfocusin|onfocusout|onload|onmousedown|onmousemove|onmouseout|onmouseover|onmouseup|onabort|onerror|onresize|onscroll|onunload|onzoom|onbegin|onend|onrepeat}" } }
macro_rules! el { () => { "{script|animate|animateColor|animateMotion|animateTransform|set|title|desc|a|view|cursor|metadata|switch|foreignObject|font|style}" } }

pub static CASES: &[Case] = &[
    Case { name: "P10 elements", tpl: concat!("<svg version='1.1'><title>t</title><defs>{|<linearGradient id='l'>{|<stop offset='0'>{|<", el!(), "/>}</stop>}</linearGradient>|<", el!(), "/>}</defs><g display='none'>{|<path d='M 1 1 L 5 5'>{|<", el!(), "/>}</path>|<text>a{|<tspan>b<", el!(), "/></tspan>}</text>}</g>{|<", el!(), "/>}</svg>"), opt: some },
    Case { name: "P10 every element of the script and animation kind", tpl: "<svg><{1:g|text|rect|defs|symbol|a|marker|mask}><{2:script|animate|animateColor|animateMotion|animateTransform|set|mpath|animation} {|attributeName='x'|type='text/javascript'|xlink:href='#q'}/></{1:g|text|rect|defs|symbol|a|marker|mask}><path id='q' d='M 1 1 H 5'/></svg>", opt: no },
    Case { name: "P10 event handlers", tpl: concat!("<svg {|", ev!(), "='a'}><title {|", ev!(), "=''}/><defs><g {|", ev!(), "='b'}/></defs><g fill='red'><path d='M 1 1 L 5 5' {|", ev!(), "='c'|onother='d'}/></g></svg>"), opt: some },
    Case { name: "P10 conditional attributes", tpl: "<svg {|systemLanguage='en'|requiredFeatures=''}><defs><path id='p' d='M 1 1 L 5 5' {|systemLanguage=''|systemLanguage='en, de'|requiredFeatures='http://x'}/></defs><switch><g {|systemLanguage='ru'|requiredFeatures='a b'|requiredExtensions=''|systemLanguage='' requiredFeatures='q'}><text {|systemLanguage='en'}>a<tspan {|requiredFeatures='x'}>b</tspan></text></g></switch></svg>", opt: some },
    Case { name: "P10 external references", tpl: "<svg><{1:use|linearGradient|radialGradient|pattern|filter|a|image|feImage|font-face-uri|textPath|tref|cursor|glyphRef|altGlyph|color-profile|g|path|rect|mpath0} {xlink:href='{a.svg|b.svg#p|http://x/y|data:image/png;base64,AA|#p|#none|}'|} {|x='1'}/>{|<defs><{2:use|pattern|image|linearGradient|tref|a} xlink:href='{c.svg#q|#p|q.png}'/></defs>}<path id='p' d='M 1 1 L 5 5'/></svg>", opt: some },
    Case { name: "P10 references of nested elements", tpl: "<svg><g><text id='p'>a{|<tref xlink:href='{x.svg#a|#t}'/>}</text><switch>{|<use xlink:href='{#p|y.svg}'/>}{|<image xlink:href='z.png'/>}</switch></g><text id='t'>b</text><clipPath id='c'>{|<use xlink:href='{#q|w.svg#a}'/>}</clipPath><path id='q' d='M 1 1 H 5' clip-path='url(#c)'/><filter id='f'>{|<feImage xlink:href='{u.png|#q}'/>}</filter><font><font-face><font-face-src>{|<font-face-uri xlink:href='v.svg#f'/>}</font-face-src></font-face></font></svg>", opt: some },
];

/// what the document contains: script, animation, conditional attribute, external reference
fn kinds(doc: &Document) -> [bool; 4] {
    let mut r = [false; 4];
    for n in doc.descendants() {
        if n.node_type() != NodeType::Element { continue; }
        let t = match n.tag_id() { Some(t) => t, None => continue };
        if t == E::Script { r[0] = true; }
        if matches!(t, E::Animate | E::AnimateColor | E::AnimateMotion | E::AnimateTransform | E::Set) { r[1] = true; }
        for a in n.attributes().iter() {
            let id = match a.id() { Some(i) => i, None => continue };
            if id.name().starts_with("on") { r[0] = true; }
            if id == A::SystemLanguage || id == A::RequiredFeatures {
                if let AttributeValue::String(ref s) = a.value { if !s.is_empty() { r[2] = true; } }
            }
            if id == A::XlinkHref && !matches!(t, E::A | E::Image | E::FeImage | E::FontFaceUri) {
                if let AttributeValue::String(_) = a.value { r[3] = true; }
            }
        }
    }
    r
}

pub fn run(c: &Case) {
    let mut doc = tpl::doc(c.tpl);
    let k = kinds(&doc);
    show("before", &doc);
    let text = doc.to_string();
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &WriteOptions::default());
    let any = k.iter().any(|x| *x);
    match r {
        Ok(_) => sym::check(!any, "P10 an unsupported document is accepted"),
        Err(e) => {
            #[cfg(feature = "replay")]
            sym::note(&format!("error: {}", e));
            // the error is known to callers by its message
            let m = e.to_string();
            if m.contains("scripting") { sym::check(k[0], "P10 refused for a script that is not there") }
            else if m.contains("animation") { sym::check(k[1], "P10 refused for an animation that is not there") }
            else if m.contains("conditional") { sym::check(k[2], "P10 refused for conditional attributes that are not there") }
            else if m.contains("external") { sym::check(k[3], "P10 refused for an external reference that is not there") }
            else { sym::check(!any, "P10 refused with an other error") }
            if any { sym::check(doc.to_string() == text, "P10 a refused document is changed"); }
        }
    }
    sym::cover(c.name);
}
