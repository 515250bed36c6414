use crate::common::*;
use crate::{sym, tpl};
use svgdom::*;

/// the defaults of the command line
pub fn defaults(o: &mut CleaningOptions) {
    for i in 0..TASKS { task(o, i); }
    o.remove_unused_coordinates = true;
    o.convert_segments = true;
    o.remove_unused_segments = true;
    o.apply_transform_to_paths = false;
    o.join_style_attributes = StyleJoinMode::None;
}
pub const TASKS: usize = 27;
pub fn task(o: &mut CleaningOptions, i: usize) {
    match i {
        0 => o.remove_unused_defs = true,
        1 => { o.paths_to_relative = true; o.remove_unused_segments = true; o.convert_segments = true; o.apply_transform_to_paths = true; }
        2 => o.convert_shapes = true,
        3 => { o.remove_title = true; o.remove_desc = true; o.remove_metadata = true; o.remove_version = true; }
        4 => o.remove_dupl_linear_gradients = true,
        5 => o.remove_dupl_radial_gradients = true,
        6 => o.remove_dupl_fe_gaussian_blur = true,
        7 => o.ungroup_groups = true,
        8 => o.ungroup_defs = true,
        9 => o.group_by_style = true,
        10 => o.merge_gradients = true,
        11 => o.regroup_gradient_stops = true,
        12 => o.remove_invalid_stops = true,
        13 => o.remove_invisible_elements = true,
        14 => o.resolve_use = true,
        15 => o.remove_unreferenced_ids = true,
        16 => o.trim_ids = true,
        17 => o.remove_text_attributes = true,
        18 => o.remove_unused_coordinates = true,
        19 => o.remove_default_attributes = true,
        20 => o.remove_xmlns_xlink_attribute = true,
        21 => o.remove_needless_attributes = true,
        22 => o.remove_gradient_attributes = true,
        23 => o.join_style_attributes = StyleJoinMode::Some,
        24 => o.apply_transform_to_gradients = true,
        25 => o.apply_transform_to_shapes = true,
        26 => o.join_style_attributes = StyleJoinMode::All,
        _ => {}
    }
}
fn one(o: &mut CleaningOptions) {
    match sym::pick("options", TASKS + 3) {
        0 => {}
        1 => defaults(o),
        2 => every(o),
        i => task(o, i - 3),
    }
}
fn every(o: &mut CleaningOptions) { for i in 0..TASKS { task(o, i); } }
fn few(o: &mut CleaningOptions) {
    match sym::pick("options", 4) {
        0 => {}
        1 => defaults(o),
        2 => every(o),
        _ => { every(o); o.remove_invisible_elements = false; o.remove_unused_defs = false; o.remove_default_attributes = false; o.ungroup_groups = false; }
    }
}
/// only these options concern gradients
fn gr(o: &mut CleaningOptions) {
    match sym::pick("options", 12) {
        0 => {}
        1 => defaults(o),
        2 => every(o),
        i => task(o, [4, 5, 10, 11, 12, 13, 22, 24, 0][i - 3]),
    }
}

macro_rules! gkid { () => { "{|<title>t</title>|<!--c-->| t |<stop offset='0' stop-color='red' stop-opacity='0.5'/>|<animation/>|<g/>|<stop offset='0.5'/>|<linearGradient/>}" } }
macro_rules! href { () => { "{|xlink:href='#a'|xlink:href='#b'|xlink:href='#c'|xlink:href='#r'|xlink:href='#s'|xlink:href='#missing'|xlink:href=''}" } }
macro_rules! kid { () => { "{path|rect|circle|line|polygon|text|image|use|g|svg|symbol|a|switch|tref|tspan|title|style}" } }
macro_rules! paint { () => { "{|fill='url(#a)'|fill='url(#b)'|stroke='url(#a)' fill='url(#s)'|fill='url(#r)'|fill='url(#missing)'|fill='url(#missing) none'}" } }
macro_rules! shape { () => { "{3:path|rect|circle|ellipse|line|polyline|polygon|text|image|use|g|svg|symbol|a|switch|foreignObject|tref|tspan}" } }

pub static CASES: &[Case] = &[
    Case { name: "P12 gradient references", tpl: concat!("<svg><{1:linear|radial}Gradient id='a' ", href!(), ">{|<stop offset='0'/><stop offset='1' id='s'/>}</{1:linear|radial}Gradient><linearGradient id='b' ", href!(), "/><{2:linear|radial}Gradient id='c' {|xlink:href='#a'|xlink:href='#b'}>{|<stop/>}</{2:linear|radial}Gradient><rect id='r' width='5' height='5' ", paint!(), "/></svg>"), opt: gr },
    Case { name: "P12 links to gradients", tpl: "<svg><linearGradient id='a'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><{1:linearGradient|radialGradient} id='b' xlink:href='#a' {|gradientUnits='userSpaceOnUse'}/>{|<linearGradient id='c' xlink:href='#b'/>}<path id='p' d='M 1 1 H 9'/>{<use xlink:href='#{a|b}'/>|<use xlink:href='#p' {fill|stroke}='url(#{a|b})'/>|<a xlink:href='#p' fill='url(#b)'><path d='M 1 1 H 5 V 5 Z'/></a>|<text>a<{2:textPath|tref|tspan} {2:xlink:href='#p'|xlink:href='#t'|x='1'} fill='url(#{a|b})'>{2:b||b}</{2:textPath|tref|tspan}></text><text id='t'>c</text>|<pattern id='t' xlink:href='#{a|b}' width='2' height='3'/>|<filter id='t' xlink:href='#b'/>|<image xlink:href='#b' fill='url(#b)'/>}<path d='M 1 1 H 5 V 5 Z' fill='url(#b)' {|stroke='url(#a)'|stroke='url(#t)'}/></svg>", opt: one },
    Case { name: "P12 gradient children", tpl: concat!("<svg><{1:linear|radial}Gradient id='a'>", gkid!(), gkid!(), gkid!(), "</{1:linear|radial}Gradient><{1:linear|radial}Gradient id='b' {|xlink:href='#a'}>{|<stop offset='0' stop-color='red'/><desc/>|b}</{1:linear|radial}Gradient><rect width='5' height='5' fill='url(#a)' stroke='url(#b)'/></svg>"), opt: gr },
    Case { name: "P12 gradient values", tpl: "<svg><{1:linear|radial}Gradient id='a' {|x1='5mm'|x1='1em' x2='2'|r='0'|r='-1'|fx='10'} {|gradientUnits='userSpaceOnUse'} {|gradientTransform='scale(0)'|gradientTransform='matrix(1 2 2 4 0 0)'|gradientTransform='scale(-1 2)'|gradientTransform=''} {|spreadMethod='repeat'}><stop {|offset='1mm'|offset='inherit'|offset='-5'|offset='200%'} {|stop-color='inherit'|stop-color='currentColor'|stop-color='none'|stop-color='url(#a)'} {|stop-opacity='inherit'|stop-opacity='50%'}/>{|<stop offset='1' {|color='red'} stop-color='currentColor'/>}</{1:linear|radial}Gradient><rect width='5' height='5' fill='url(#a)'/></svg>", opt: gr },
    Case { name: "P12 links of use", tpl: concat!("<svg id='r'><g id='a' {|fill='red'} {|transform='scale(2)'}><use id='b' {|x='1'} xlink:href='{#a|#b|#c|#d|#r|#missing}'/>{|<use xlink:href='#d'/>}</g><{1:defs|g|symbol}><use id='c' xlink:href='{#a|#b|#c|#d|#r}'/></{1:defs|g|symbol}><symbol id='d'>{|<use xlink:href='{#d|#c|#a}'/>}{|<path d='M 1 1 L 5 5' fill='{inherit|currentColor|red}' color='inherit'/>}</symbol><use {|xlink:href='{#a|#d|#c}'|xlink:href=''} {|width='5mm'|transform='scale(0)'|color='red'}/></svg>"), opt: few },
    Case { name: "P12 recursive effects", tpl: "<svg><clipPath id='c' {|clip-path='url(#c)'|clip-path='url(#c2)'}><rect width='5' height='5' {|clip-path='url(#c)'|clip-path='url(#c2)'} {|mask='url(#m)'|fill='url(#p)'}/></clipPath><clipPath id='c2' {|clip-path='url(#c)'}/><mask id='m' {|mask='url(#m)'|clip-path='url(#c)'}><rect width='5' height='5' {|mask='url(#m)'|fill='url(#p)'}/></mask><pattern id='p' {|xlink:href='#p'|xlink:href='#q'|width='5' height='5'}><rect width='5' height='5' {|fill='url(#p)'|stroke='url(#q)'}/></pattern><pattern id='q' {|xlink:href='#p'|width='5' height='5'} {|fill='url(#q)'}/><g {|clip-path='url(#c)'|mask='url(#m)'}><path d='M 1 1 L 5 5' {|fill='url(#p)'|clip-path='url(#c2)'}/></g></svg>", opt: few },
    Case { name: "P12 recursive filters, markers and links", tpl: "<svg><filter id='f' {|xlink:href='#f'|xlink:href='#h'|filter='url(#f)'}>{|<feImage xlink:href='{#f|#x|#missing}'/>|<feMerge/>}</filter><filter id='h' {|xlink:href='#f'|xlink:href='#x'}/><marker id='m' {|marker-start='url(#m)'}><path id='x' d='M 1 1 L 5 5' {|marker-end='url(#m)'|filter='url(#f)'|filter='url(#h)'|marker='url(#m)'}/></marker><text id='t'><textPath xlink:href='{#t|#x|#m}'>a<tref xlink:href='{#t|#x|#i}'/></textPath></text><a xlink:href='{#t|#i|x.html}' id='i'><path d='M 1 1 L 5 5' {|marker-mid='url(#m)'|filter='url(#x)'|clip-path='url(#f)'|mask='url(#m)'}/></a></svg>", opt: few },
    Case { name: "P12 filters", tpl: "<svg><filter id='f' {|primitiveUnits='objectBoundingBox'}>{|<title/>| a |<g/>}{|<feGaussianBlur {|stdDeviation='-1'|stdDeviation=''|stdDeviation='1 2'|stdDeviation='1 2 3'|stdDeviation='0'|stdDeviation='1'}/>}{|<feColorMatrix {|type='saturate'|type='hueRotate'|type='luminanceToAlpha'|type='matrix'|type='other'} {|values=''|values='1'|values='1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0'|values='1 2'}/>}</filter><filter id='g'><feGaussianBlur {|stdDeviation='-1'|stdDeviation='1'}/></filter><rect width='5' height='5' filter='url(#f)'/><rect width='5' height='5' filter='url(#g)'/></svg>", opt: few },
    Case { name: "P12 unexpected structure", tpl: concat!("<svg {|fill='red'}><", shape!(), ">{| a }{|<", kid!(), "/>}<!--c-->{|<", kid!(), " fill='red' transform='scale(2)'/>}</", shape!(), "></svg>"), opt: one },
    Case { name: "P12 elements in elements", tpl: "<svg><{1:clipPath|mask|pattern|marker|filter|linearGradient|switch|a|text|defs|g|symbol|svg|foreignObject|style|metadata|title|font|feMerge|stop} id='a'><{2:path|rect|use|g|defs|svg|clipPath|filter|linearGradient|stop|feGaussianBlur|text|tspan|title|style|symbol|font-face|glyph} id='b' {|fill='red'|transform='scale(2)'|clip-path='url(#a)'}>{|a|<path d='M 1 1 L 5 5'/>|<g/>}</{2:path|rect|use|g|defs|svg|clipPath|filter|linearGradient|stop|feGaussianBlur|text|tspan|title|style|symbol|font-face|glyph}></{1:clipPath|mask|pattern|marker|filter|linearGradient|switch|a|text|defs|g|symbol|svg|foreignObject|style|metadata|title|font|feMerge|stop}></svg>", opt: few },
    Case { name: "P12 empty documents", tpl: "<svg{| id='a'| fill='red'| xmlns:x='y'}>{|<!--c-->|<g/>|<g><g/></g>|<defs/>|<defs><defs/></defs>| a |<x:a/>|<title/>|<svg/>|<svg><svg/></svg>|<use xlink:href='#a'/>}{|<!--d-->|<g fill='blue'/>|<style/>}</svg>", opt: one },
    Case { name: "P12 path data", tpl: "<svg><path {|d=''|d='M'|d='M 1'|d='M @i 2'|d='M 1 @i Z'|d='m 1 @i m 2 @i z z'|d='M 1 1 H'|d='M 1 1 L 1 1 Z L 5 5 Z M 6 6'|d='M 1 1 T 5 @i S 1 2 @i 4 A 0 0 0 0 0 5 5'|d='M 1 1 A 5 @n 3 1 1 8 1 z a 1 1 0 01 1 1'|d='M 1 1 Q 1 1 1 1 C 1 1 1 1 1 1 S 1 1 1 1'|d='L 5 5'|d='M 1 2 z m @i 3 h 4 v @i z'|d='none'} {|stroke='red'|marker-mid='url(#m)'} {|transform='scale(0)'|transform='scale(2)'|transform='matrix(1 1 1 1 0 0)'|transform='rotate(45)'|transform=''} {|stroke-width='5%'|stroke-dasharray='none'|stroke-dasharray='1mm 2'|stroke-dasharray=''}/><marker id='m'/></svg>", opt: few },
    Case { name: "P12 shape values", tpl: "<svg><{1:rect|circle|ellipse|line|polygon|polyline|image|use} {1:width='@i' height='{@i|5%|0}'|r='{@i|5mm}'|rx='@i' ry='{2|0|5em}'|x1='{@i|1em}' x2='5'|points='{|1|1 2|1 2 3|@i @i 1 2}'|points='{|1|1 2|1 2 3|@i @i 1 2}'|width='@i'|x='@i'} {|fill='inherit'|fill='none'|fill='url(#a)'} {|transform='scale(0 1)'|transform='scale(@s)'|transform='skewX(45)'} {|stroke='red'} {|stroke-width='{@i|1%|1em}'|stroke-dasharray='{1 -1|0|5%}'|stroke-miterlimit='0'}/></svg>", opt: few },
    Case { name: "P12 groups and styles", tpl: "<svg><g {|opacity='{0|1|inherit|50%}'|display='none'|transform='scale(0)'|transform='scale(-1 1)'} {|fill='none'|stroke='red'|filter='url(#x)'|clip-path='url(#x)'}>{| a |<!--c-->}<g {|opacity='0.5'|transform='scale(2)'} {|fill='red'}>{|<path d='M 1 1 L 5 5' fill='red'/>|<title/>|<path d='M 1 1 L 5 5' fill='red' opacity='0.5'/><path d='M 1 1 L 5 6' fill='red' transform='scale(2)'/><path d='M 1 1 L 5 7' fill='red'/><path d='M 1 1 L 5 8' fill='red'/>}</g>{|<path d='M 1 1' fill='red'/><path fill='red'/><rect fill='red'/>}</g></svg>", opt: few },
    Case { name: "P12 text", tpl: "<svg><text {|x='1 2'|x='1mm'|font-size='{0|-1|larger|150%|1em}'} {|xml:space='preserve'|text-anchor='inherit'|baseline-shift='50%'}>{|a|<tspan/>|<tspan><tspan/>b</tspan>|<tref xlink:href='#r'/>|<textPath xlink:href='#r'/>|<a>b</a>|<g/>|<path d='M 1 1'/>|<tref/>|<altGlyph/>}{|<!--c-->|<title>x</title>|c}</text><rect id='r' width='5' height='5'/>{|<foreignObject><p>a</p></foreignObject>|<foreignObject><text>a</text></foreignObject>|<tspan>a</tspan>| b }</svg>", opt: one },
    Case { name: "P12 properties without a value", tpl: "<svg {|viewBox='{|1|1 2 3|0 0 0 0|a}'|width='{|0|-5|5%|auto}'|preserveAspectRatio=''}><g {fill|stroke|stroke-width|opacity|clip-path|mask|filter|display|visibility|transform|font-size|font-family|marker-start|stroke-dasharray|stop-color|color|overflow|enable-background|class|style|id|xml:space|cursor|clip|x|unknown|xlink:href|xlink:title}='{|none|inherit|1|a}'><path d='M 1 1 L 5 5' {|color='red'}/></g></svg>", opt: few },
    Case { name: "P12 elements that are not SVG", tpl: "<svg xmlns:x='y' {|x:a='b'}><x:a {|transform='scale(2)'|id='i'|fill='red'|x:b='c'}>{|a|<path d='M 1 1 L 5 5'/>|<x:b/>|<stop/>}</x:a><g {|transform='scale(2)'|opacity='0.5'|fill='red'|x:b='c'|foo='bar'}>{|<x:c {|transform='scale(2)'|fill='red'}/>|<foo fill='red'/>}{|<path d='M 1 1 L 5 5' fill='red' transform='scale(3)' {|x:d='e'|foo='bar'}/>}</g><{4:defs|clipPath|g}><x:d id='j'>{|<path id='p' d='M 1 1 L 5 5'/>}</x:d></{4:defs|clipPath|g}>{|<use xlink:href='{#i|#j|#p}' x:e='f'/>}</svg>", opt: few },
    Case { name: "P12 numbers", tpl: "<svg viewBox='0 0 {1e300|1e-300|1} 5'><path d='M {1e300|-1e300|1e-20|0.1234567890123} 1 L 5 {1e308|-0|0.0000000001} {|Z|A 1e-30 1e30 1e300 0 0 5 5}' {|transform='scale(1e300)'|transform='scale(1e-300)'|transform='translate(1e308 -1e308)'} {|opacity='{1e300|1e-300}'|stroke-width='{1e300|1e-300}'}/></svg>", opt: prec },
];

fn prec(o: &mut CleaningOptions) {
    match sym::pick("options", 3) { 0 => {}, 1 => defaults(o), _ => every(o) }
    let p = [1u8, 6, 8, 12][sym::pick("precision", 4)];
    o.coordinates_precision = p;
    o.properties_precision = p;
    o.paths_coordinates_precision = p;
    o.transforms_precision = p;
}

pub fn run(c: &Case) {
    let mut doc = match tpl::try_doc(c.tpl) { Some(d) => d, None => return };
    // other passes are run on the result by the command line tool
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    show("before", &doc);
    let wopt = WriteOptions::default();
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &wopt);
    show("after", &doc);
    sym::cover(c.name);
    if r.is_err() || c.tpl.contains('@') { return; }
    let mut buf = Vec::new();
    svgcleaner::cleaner::write_buffer(&doc, &wopt, &mut buf);
    sym::check(buf.len() > 0, "P12 nothing is written");
    if opt.join_style_attributes == StyleJoinMode::None {
        let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &wopt);
        show("again", &doc);
        // a document made by the cleaner is one it supports
        sym::check(r.is_ok(), "P12 the second pass refuses the document");
    }
}
