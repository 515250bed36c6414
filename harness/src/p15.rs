use crate::common::*;
use crate::{sym, tpl};
use svgdom::*;
use svgdom::AttributeId as A;

/// coordinates, properties, paths, transforms
fn set(o: &mut CleaningOptions, p: [u8; 4]) {
    o.coordinates_precision = p[0];
    o.properties_precision = p[1];
    o.paths_coordinates_precision = p[2];
    o.transforms_precision = p[3];
}
fn low(o: &mut CleaningOptions) { set(o, [[1, 2, 3, 2], [2, 3, 1, 1], [3, 1, 2, 3]][sym::pick("precisions", 3)]) }
fn high(o: &mut CleaningOptions) { set(o, [[5, 6, 7, 8], [8, 7, 6, 5], [6, 5, 12, 7], [4, 6, 5, 12], [6, 6, 8, 8]][sym::pick("precisions", 5)]) }
fn any(o: &mut CleaningOptions) {
    let a = 1 + sym::pick("precision", 12) as u8;
    let b = if a == 5 { 2 } else { 5 };
    let k = sym::pick("class", 4);
    let mut p = [b; 4];
    p[k] = a;
    set(o, p)
}

macro_rules! coord { () => { "{x|y|dx|dy|x1|y1|x2|y2|r|rx|ry|cx|cy|fx|fy|width|height}" } }
macro_rules! prop { () => { "{stroke-dashoffset='-@F'|stroke-miterlimit='@F'|stroke-width='@f'|opacity='@F'|fill-opacity='@F'|flood-opacity='@F'|stroke-opacity='@F'|stop-opacity='@F'|font-size='@F'}" } }
macro_rules! proph { () => { "{stroke-dashoffset='-@H'|stroke-miterlimit='@H'|stroke-width='@h'|opacity='@H'|fill-opacity='@H'|flood-opacity='@H'|stroke-opacity='@H'|stop-opacity='@H'|font-size='@H'}" } }
macro_rules! seg { ($n:expr) => { concat!("{M ", $n, " 2.123456789|m 2.123456789 ", $n, "|L ", $n, " 1|l 1 ", $n, "|H ", $n, "|h ", $n, "|V ", $n, "|v ", $n, "|C ", $n, " 1 2 3 4 5|C 1 ", $n, " 2 3 4 5|c 1 2 ", $n, " 3 4 5|C 1 2 3 ", $n, " 4 5|C 1 2 3 4 ", $n, " 5|c 1 2 3 4 5 ", $n, "|S ", $n, " 1 2 3|s 1 ", $n, " 2 3|S 1 2 ", $n, " 3|S 1 2 3 ", $n, "|Q ", $n, " 1 2 3|q 1 ", $n, " 2 3|Q 1 2 ", $n, " 3|Q 1 2 3 ", $n, "|T ", $n, " 1|t 1 ", $n, "|A 1 2 3 0 1 ", $n, " 1|a 1 2 3 1 0 1 ", $n, "|A 1.987654321 2.123456789 10.987654321 0 1 5 5.555555555}") } }
macro_rules! ts { ($n:expr) => { concat!("{transform='matrix(", $n, " 0 0 1 0 0)'|transform='matrix(1 ", $n, " 0 1 0 0)'|transform='matrix(1 0 ", $n, " 1 0 0)'|transform='matrix(1 0 0 ", $n, " 0 0)'|transform='matrix(1 0 0 1 ", $n, " 0)'|transform='matrix(1 0 0 1 0 ", $n, ")'|transform='matrix(1.123456789 0.987654321 -0.555555555 3.141592653 2.718281828 -1.414213562)'|transform='translate(", $n, ")'|transform='rotate(30)'|transform='matrix(0.999 0.001 0 1 0 0)'}") } }

pub static CASES: &[Case] = &[
    Case { name: "P15 coordinates", tpl: concat!("<svg><{g|text|image} ", coord!(), "='@f{|mm|%}'/></svg>"), opt: low },
    Case { name: "P15 coordinates with a high precision", tpl: concat!("<svg><g ", coord!(), "='@h{|em}'/></svg>"), opt: high },
    Case { name: "P15 properties", tpl: concat!("<svg><g ", prop!(), "/></svg>"), opt: low },
    Case { name: "P15 properties with a high precision", tpl: concat!("<svg><g ", proph!(), "/></svg>"), opt: high },
    Case { name: "P15 transforms", tpl: concat!("<svg><g ", ts!("@f"), "/></svg>"), opt: low },
    Case { name: "P15 transforms with a high precision", tpl: concat!("<svg><g ", ts!("@h"), "/></svg>"), opt: high },
    Case { name: "P15 transforms of paint servers", tpl: "<svg><defs><{1:pattern width='5' height='5' patternTransform|linearGradient gradientTransform|radialGradient gradientTransform}='matrix({1 0 0 @f 0 0|1 0 0 1 @f 0|1 0.123456 0.654321 1 7.777777 8.888888})' id='p' x='0.123456789'/></defs><g transform='matrix(1 0 0 1 0.123456789 0)' fill='url(#p)'/></svg>", opt: low },
    Case { name: "P15 paths", tpl: concat!("<svg><path d='M 1.123456789 2 ", seg!("@f"), " {|Z|L 0.123456789 1}'/></svg>"), opt: low },
    Case { name: "P15 paths with a high precision", tpl: concat!("<svg><path d='M 0 0 ", seg!("@h"), "'/></svg>"), opt: high },
    Case { name: "P15 lists", tpl: "<svg viewBox='{0 0 5 5|@f 0 5.123456789 9|0 0 @p 9.987654321}'><{polygon|polyline} points='{1 2|@f 1.123456789 2 0.987654321|1.123456789 @f}'/><text x='{@f 1.123456789|1.123456789 @f 2.2222222}' dy='{1|0.123456789 0.987654321 @f}'>a</text><g stroke-dasharray='{1|@F 1.123456789|0.123456789 0.987654321mm}'/></svg>", opt: low },
    Case { name: "P15 numbers of several classes", tpl: "<svg viewBox='0 0 1.123456789123456 2.987654321987654'><path d='M 1.123456789123456 2.987654321987654 L 5.555555555555555 4.444444444444444' stroke-width='0.123456789123456' opacity='0.987654321987654' transform='matrix(1.123456789123456 0.987654321987654 0.333333333333333 0.777777777777777 5.123456789123456 6.987654321987654)' stroke-dasharray='1.123456789123456 2.2222222222222222'/><rect x='1.123456789123456' y='-2.987654321987654' width='9.999999999999999' height='1.500000000000001'/></svg>", opt: any },
    Case { name: "P15 ties and large numbers", tpl: "<svg><g x='{0.05|0.15|-0.05|-0.25|2.5|1000.005|99999.95|123456789.987654321|-0.04|0.0005|0.9999999999}' stroke-width='{0.05|0.125|0.00000000000001|7.35}' transform='matrix(1 0 0 {1.05|0.15|-0.95} {0.05|1234567.05} 0)'/></svg>", opt: any },
    Case { name: "P15 numbers of no class", tpl: "<svg><{1:g|stop offset='0.123456789'|feGaussianBlur|text|glyph} {stdDeviation='1.123456789'|refX='1.123456789'|markerWidth='2.987654321'|letter-spacing='@F'|word-spacing='0.123456789'|kerning='0.123456789'|k1='0.123456789'|font-size-adjust='0.123456789'|startOffset='0.123456789'|textLength='0.123456789'|baseline-shift='0.123456789'|rotate='1.123456789'|unknown='1.123456789'|id='a0.123456789'|font-family='0.123456789'|surfaceScale='0.123456789'|tableValues='0.123456789 0.987654321'|values='0.123456789 1'|glyph-orientation-vertical='0.123456789'|horiz-adv-x='0.123456789'|xml:space='0.123456789'}/></svg>", opt: low },
];

const POW: [f64; 13] = [1.0, 10.0, 100.0, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12];

/// the documented class: the precision of number `i` of the attribute
fn class(a: A, i: usize, o: &CleaningOptions) -> Option<u8> {
    match a {
        A::X | A::Y | A::Dx | A::Dy | A::X1 | A::Y1 | A::X2 | A::Y2 | A::R | A::Rx | A::Ry | A::Cx | A::Cy | A::Fx | A::Fy | A::Width | A::Height | A::StrokeDasharray => Some(o.coordinates_precision),
        A::StrokeDashoffset | A::StrokeMiterlimit | A::StrokeWidth | A::Opacity | A::FillOpacity | A::FloodOpacity | A::StrokeOpacity | A::StopOpacity | A::FontSize => Some(o.properties_precision),
        A::Transform | A::GradientTransform | A::PatternTransform => Some(if i < 4 { o.transforms_precision } else { o.coordinates_precision }),
        A::D | A::ViewBox | A::Points => Some(o.paths_coordinates_precision),
        _ => None,
    }
}

fn nums(v: &AttributeValue) -> Vec<f64> {
    let mut v = v.clone();
    let mut l = Vec::new();
    tpl::for_numbers(&mut v, &mut |x| l.push(*x));
    l
}

/// what is not a number: kind, units, commands, flags
fn shape(v: &AttributeValue) -> String {
    match *v {
        AttributeValue::Length(l) => format!("length {:?}", l.unit),
        AttributeValue::LengthList(ref l) => l.iter().map(|x| format!("{:?} ", x.unit)).collect(),
        AttributeValue::Number(_) => "number".to_string(),
        AttributeValue::NumberList(ref l) => format!("numbers {}", l.len()),
        AttributeValue::Path(ref p) => p.d.iter().map(|s| format!("{:?}{} {}", s.cmd(), s.is_absolute(), match *s.data() {
            path::SegmentData::EllipticalArc { large_arc, sweep, .. } => format!("{}{}", large_arc, sweep),
            _ => String::new(),
        })).collect(),
        AttributeValue::Transform(_) => "transform".to_string(),
        ref o => format!("{}", o),
    }
}

pub fn run(c: &Case) {
    let mut doc = tpl::doc(c.tpl);
    let orig = tpl::copy(&doc);
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    sym::note(&format!("precisions: coordinates {}, properties {}, paths {}, transforms {}", opt.coordinates_precision, opt.properties_precision, opt.paths_coordinates_precision, opt.transforms_precision));
    show("before", &doc);
    sym::check(svgcleaner::cleaner::clean_doc(&mut doc, &opt, &WriteOptions::default()).is_ok(), "P15 a supported document was refused");
    show("after", &doc);
    let nodes: Vec<Node> = doc.root().descendants().filter(|n| n.node_type() == NodeType::Element).collect();
    sym::check(nodes.len() == orig.len(), "P15 elements change");
    for i in 0..orig.len() {
        let svg = nodes[i].tag_id().is_some();
        let now = nodes[i].attributes();
        for &(ref name, ref old) in &orig[i] {
            let aid = match *name { Name::Id(a) => Some(a), _ => None };
            let nv = nums(old);
            let new = match *name { Name::Id(a) => now.get_value(a).cloned(), Name::Name(ref s) => now.get_value(s.as_str()).cloned() };
            let new = match new {
                Some(v) => v,
                // an identity transform may be left out
                None if matches!(aid, Some(A::Transform) | Some(A::GradientTransform) | Some(A::PatternTransform)) => AttributeValue::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, 0.0, 0.0)),
                None => { sym::check(false, "P15 an attribute is missing"); return; }
            };
            sym::check(shape(old) == shape(&new), "P15 other parts of the value change");
            let mv = nums(&new);
            for k in 0..nv.len() {
                match if svg { aid.and_then(|a| class(a, k, &opt)) } else { None } {
                    None => sym::check(sym::feq(nv[k], mv[k]), "P15 a number of no class changes"),
                    Some(p) => {
                        let w = POW[p as usize];
                        let n = (mv[k] * w).round();
                        sym::check(sym::feq(n / w, mv[k]), "P15 more decimals than the precision");
                        let x = nv[k] * w;
                        sym::check(sym::fle(n - 0.5, x) & sym::fle(x, n + 0.5), "P15 not the nearest number of the precision");
                    }
                }
            }
        }
        let had = orig[i].len();
        // a gradient gets the attributes it inherits
        let gr = nodes[i].is_tag_name(svgdom::ElementId::LinearGradient) || nodes[i].is_tag_name(svgdom::ElementId::RadialGradient);
        sym::check(gr || now.iter().count() <= had, "P15 attributes are added");
    }
    sym::cover(c.name);
}
