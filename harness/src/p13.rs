use crate::common::*;
use crate::render::{val, veq, V};
use crate::{sym, tpl};
use svgdom::*;
use svgdom::{ElementId as E, AttributeId as A};

fn no(_: &mut CleaningOptions) {}
/// everything the defaults of the command line do, for trees whose nodes none of these tasks concerns
fn rest(o: &mut CleaningOptions) {
    if sym::flag("other options") { crate::p12::defaults(o); }
}

macro_rules! mt { () => { "{title|desc|metadata}" } }
macro_rules! ns { () => { " xmlns:xlink='http://www.w3.org/1999/xlink'" } }

pub static CASES: &[Case] = &[
    Case { name: "P13 position of the elements", tpl: concat!("<svg version='1.1'>{|<", mt!(), ">t</", mt!(), ">}<g id='a'><path d='M 1 @i L 5 5'/>{|<", mt!(), ">u</", mt!(), ">|<", mt!(), "/><title>v</title>}</g>{|<", mt!(), "/>}<path d='M 1 1 L 5 6' fill='red'>{|<", mt!(), ">w</", mt!(), ">}</path></svg>"), opt: no },
    Case { name: "P13 contents of the elements", tpl: concat!("<svg {|version='1.1'}><{1:title|desc|metadata}>{|t|<x:a b='c'>t</x:a>|<g><path d='M 1 1 L 5 5'/></g>|<!--c-->|<title>n</title>|<desc>n<metadata/></desc>|<metadata><title/></metadata>k}{|<", mt!(), ">m</", mt!(), ">}</{1:title|desc|metadata}><path d='M 1 1 L @i 5'>{|<", mt!(), "><", mt!(), "/></", mt!(), "><", mt!(), "/>}</path></svg>"), opt: no },
    Case { name: "P13 elements with equal names", tpl: concat!("<svg><x:title>t</x:title><g><", mt!(), ">t</", mt!(), "><x:", mt!(), " version='1.1'/><{text|tspan|a|switch|view}>{t|<", mt!(), ">u</", mt!(), ">v|<x:desc/>}</{text|tspan|a|switch|view}></g></svg>"), opt: no },
    Case { name: "P13 version", tpl: "<svg {|version='1.1'|version='1'} {|baseProfile='full'|baseProfile='tiny'} {|x:version='2'}><svg {|version='1.1'} {|baseProfile='tiny'}><g {|version='a'|baseProfile='a'} id='g'/></svg>{|<title version='1'/>}</svg>", opt: no },
    Case { name: "P13 xlink namespace", tpl: concat!("<svg{", ns!(), "|}><defs><clipPath id='c'>{|<path d='M 1 1 H 5 V 5 Z' {|xlink:title='t'}/>}</clipPath></defs>{|<use xlink:href='#p'/>}<g id='g'><path id='p' d='M @i 1 L 5 5' {|xlink:title='t'|xlink:x='a'|x:href='b'|clip-path='url(#c)'}/></g>{|<x:a xlink:href='b'/>|<x:a xlink:label='b'/>}{|<{1:image|a|script0|metadata} {1:xlink:href='a.png'|xlink:show='new'|xlink:role='b'|xlink:type='c'}/>}</svg>"), opt: no },
    Case { name: "P13 xlink namespace used by a removed element", tpl: concat!("<svg", ns!(), "><", mt!(), ">{t|<x:a xlink:href='b'/>|<a xlink:href='b'/>}</", mt!(), "><path id='p' d='M 1 1 L 5 5'/>{|<g {|xlink:title='a'}><title xlink:title='b'/></g>}</svg>"), opt: no },
    Case { name: "P13 xlink namespace of other elements", tpl: concat!("<svg", ns!(), " {|xlink:title='a'}><defs><linearGradient id='l'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient><filter id='f'><feFlood/></filter><mask id='m'><path d='M 1 1 H 5 V 5 Z'/></mask><marker id='k'><path d='M 1 1 H 5 V 5 Z'/></marker></defs><g{|", ns!(), "} id='g'><path d='M 1 1 L 5 5' {|fill='url(#l)'|filter='url(#f)'|mask='url(#m)'|marker-start='url(#k)'}/></g></svg>"), opt: no },
    Case { name: "P13 comments and declarations", tpl: "{|<?xml version='1.0'?>|<?xml version='1.0' encoding='UTF-8'?>|<?xml version='1.0' standalone='no'?>}{|<!--a-->}<svg>{|<!--b-->}<g id='g'>{|<!--c--><!--d-->}<path d='M 1 @i L 5 5'>{|<!--e-->}</path>{|<text>{a|<!--f-->|a<!--f-->b|<tspan>a<!--g--></tspan>}</text>}{|<title>{|t}<!--h--></title>}</g></svg>{|<!--i-->}", opt: no },
    Case { name: "P13 elements and attributes that are not SVG", tpl: "<svg xmlns:x='y' {|x:a='b'}>{|<x:e {|x:f='g'|fill='red'}>{|t|<x:h/>|<g><path d='M 1 1'/></g>|<!--c-->}</x:e>|<foo/>}<g id='g' {|x:b='c'|foo='bar'|data-x='1'}>{|<x:i/>}<path d='M 1 @i L 5 5' {|x:d='e'|bar='foo'} stroke='red'>{|<x:j>u</x:j>}</path>{|<text>a{|<x:k/>|<x:k>z</x:k>}</text>}</g></svg>", opt: no },
    Case { name: "P13 attributes of a style", tpl: "<svg><g id='g' style='{fill:red|fill:red;-x-y:z|-inkscape-a:b}' {|x:b='c'}><path d='M 1 1 L 5 5' {|style='stroke:blue;foo:bar'}/></g><x:a style='fill:red' {|class='k'}/></svg>", opt: no },
    Case { name: "P13 with other tasks", tpl: concat!("<svg version='1.1' width='9' height='9'><", mt!(), ">t</", mt!(), "><path d='M 1 1 L 5 5' fill='red'>{|<", mt!(), ">u</", mt!(), ">}{|<title>w</title>}</path>{|<", mt!(), ">v</", mt!(), ">}{|<!--c-->}<path d='M 1 1 L 5 9' fill='blue'/></svg>"), opt: rest },
];

pub enum K { Elem, Text, Other(u8) }
pub struct N { depth: usize, kind: K, tag: String, attrs: Vec<(String, V)>, text: String }

pub fn attrs(n: &Node, keep: &dyn Fn(&Attribute) -> bool) -> Vec<(String, V)> {
    let mut v: Vec<(String, V)> = n.attributes().iter().filter(|a| a.visible && keep(a)).map(|a| (
        match a.name { Name::Id(i) => i.name().to_string(), Name::Name(ref s) => s.clone() },
        match a.value {
            AttributeValue::Link(ref l) => V::Str(format!("link {}", l.id().to_string())),
            AttributeValue::FuncLink(ref l) => V::Str(format!("func {}", l.id().to_string())),
            AttributeValue::Path(_) | AttributeValue::Transform(_) => path(&a.value),
            ref v => val(v),
        },
    )).collect();
    let id = n.id().to_string();
    if !id.is_empty() { v.push(("id".to_string(), V::Str(id))); }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn path(v: &AttributeValue) -> V {
    let mut l = Vec::new();
    let mut v = v.clone();
    tpl::for_numbers(&mut v, &mut |x| l.push((*x, LengthUnit::None)));
    V::List(l)
}

struct Flags { title: bool, desc: bool, metadata: bool, version: bool, xlink: bool, comments: bool, decl: bool, elems: bool, attrs: bool }

fn is_xlink(a: &Attribute) -> bool {
    match a.name { Name::Id(i) => i.name().starts_with("xlink:"), Name::Name(ref s) => s.starts_with("xlink:") }
}

/// the tree without what the flags remove
fn walk(n: &Node, root: &Node, depth: usize, f: &Flags, out: &mut Vec<N>) {
    for c in n.children() {
        let kind = match c.node_type() {
            NodeType::Element => K::Elem,
            NodeType::Text => K::Text,
            NodeType::Cdata => K::Other(1),
            NodeType::Comment => { if f.comments { continue; } K::Other(2) }
            NodeType::Declaration => { if f.decl { continue; } K::Other(3) }
            NodeType::Root => K::Other(4),
        };
        if let K::Elem = kind {
            let t = c.tag_id();
            if f.title && t == Some(E::Title) || f.desc && t == Some(E::Desc) || f.metadata && t == Some(E::Metadata) || f.elems && t.is_none() { continue; }
            let top = c == *root;
            let tag = match c.tag_name().as_ref().map(|n| (**n).clone()) { Some(Name::Id(i)) => i.name().to_string(), Some(Name::Name(s)) => format!("other {}", s), None => String::new() };
            let at = attrs(&c, &|a: &Attribute| match a.name {
                Name::Name(_) => !f.attrs,
                Name::Id(i) => !(f.version && top && (i == A::Version || i == A::BaseProfile)),
            });
            out.push(N { depth, kind, tag, attrs: at, text: String::new() });
            walk(&c, root, depth + 1, f, out);
        } else {
            out.push(N { depth, kind, tag: String::new(), attrs: Vec::new(), text: c.text().to_string() });
        }
    }
}

fn eq(a: &[N], b: &[N]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for i in 0..a.len() {
        let (x, y) = (&a[i], &b[i]);
        let k = match (&x.kind, &y.kind) { (&K::Elem, &K::Elem) | (&K::Text, &K::Text) => true, (&K::Other(p), &K::Other(q)) => p == q, _ => false };
        if !k || x.depth != y.depth || x.tag != y.tag || x.text != y.text || x.attrs.len() != y.attrs.len() { return false; }
        for j in 0..x.attrs.len() {
            if x.attrs[j].0 != y.attrs[j].0 { return false; }
            r &= veq(&x.attrs[j].1, &y.attrs[j].1);
        }
    }
    r
}

const NONE: Flags = Flags { title: false, desc: false, metadata: false, version: false, xlink: false, comments: false, decl: false, elems: false, attrs: false };

pub fn run(c: &Case) {
    let parse = c.name.contains("comments") || c.name.contains("not SVG") || c.name.contains("style");
    let t = tpl::expand(c.tpl);
    sym::note(&t.text);
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    let mut f = NONE;
    if c.name.contains("other tasks") {
        // only the elements that are named
        opt.ungroup_groups = false;
        opt.group_by_style = false;
        opt.remove_needless_attributes = false;
        opt.paths_to_relative = false;
        opt.convert_segments = false;
    }
    if parse {
        f.comments = sym::flag("comments");
        f.decl = sym::flag("declarations");
        f.elems = sym::flag("elements");
        f.attrs = sym::flag("attributes");
    }
    let has = |s: &str| c.tpl.contains(s);
    if has("title") { f.title = sym::flag("title"); }
    if has("desc") { f.desc = sym::flag("desc"); }
    if has("metadata") { f.metadata = sym::flag("metadata"); }
    if has("version=") && !has("<?xml") { f.version = sym::flag("version"); }
    if has("xlink") { f.xlink = sym::flag("xlink"); }
    opt.remove_title = f.title;
    opt.remove_desc = f.desc;
    opt.remove_metadata = f.metadata;
    opt.remove_version = f.version;
    opt.remove_xmlns_xlink_attribute = f.xlink;

    let mut po = tpl::parse_opts();
    let full = match svgcleaner::cleaner::parse_data(&t.text, &po) { Ok(mut d) => { t.fill(&mut d); d } Err(_) => sym::fail("template does not parse") };
    po.parse_comments = !f.comments;
    po.parse_declarations = !f.decl;
    po.parse_unknown_elements = !f.elems;
    po.parse_unknown_attributes = !f.attrs;
    let mut doc = match svgcleaner::cleaner::parse_data(&t.text, &po) { Ok(mut d) => { t.fill_some(&mut d); d } Err(_) => sym::fail("P13 refused by the parser") };
    let mut want = Vec::new();
    walk(&full.root(), &full.svg_element().unwrap(), 0, &f, &mut want);
    show("before", &doc);
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &WriteOptions::default());
    #[cfg(feature = "replay")]
    if let Err(ref e) = r { sym::note(&format!("error: {}", e)); }
    sym::check(r.is_ok(), "P13 a supported document was refused");
    show("after", &doc);
    let mut got = Vec::new();
    walk(&doc.root(), &doc.svg_element().unwrap(), 0, &NONE, &mut got);

    // the namespace declaration: removed when nothing needs it, there when something does
    let used = doc.descendants().any(|n| n.node_type() == NodeType::Element && n.attributes().iter().any(|a| a.visible && is_xlink(a)));
    let xl = |v: &[N]| v.iter().position(|n| n.depth == 0 && n.tag == "svg").map(|i| v[i].attrs.iter().any(|a| a.0 == "xmlns:xlink")).unwrap_or(false);
    if used {
        sym::check(xl(&got), "P13 the xlink namespace is not declared although it is used");
    } else if f.xlink {
        sym::check(!xl(&got), "P13 the xlink namespace is kept although nothing uses it");
    } else {
        sym::check(xl(&got) == xl(&want), "P13 the xlink namespace changes with its option off");
    }
    for v in vec![&mut want, &mut got] {
        for n in v.iter_mut() { if n.depth == 0 { n.attrs.retain(|a| a.0 != "xmlns:xlink"); } }
    }
    if c.name.contains("other tasks") {
        // attributes are the business of other properties
        for v in vec![&mut want, &mut got] { for n in v.iter_mut() { n.attrs.clear(); } }
    }
    sym::check(eq(&want, &got), c.name);
    sym::cover(c.name);
}
