use crate::common::*;

fn o(o: &mut CleaningOptions) { o.resolve_use = true; }
fn more(o: &mut CleaningOptions) { o.resolve_use = true; o.ungroup_groups = true; o.apply_transform_to_shapes = true; o.remove_unused_defs = true; }

macro_rules! ua { () => { "{|x='@k'|y='@k'|x='@k' y='2'|x='3mm'|x='5%'|transform='translate(@k 1)'|transform='scale(2)' x='@k'|width='5' height='6'|id='u'}" } }
macro_rules! us { () => { "{|fill='red'|stroke='red'|opacity='@O'|clip-path='url(#c)'|mask='url(#m)'|filter='url(#f)'|display='none'|display='inline'|visibility='hidden'|color='green'|stroke-width='@p'}" } }
macro_rules! ds { () => { "<clipPath id='c'><path d='M 0 0 H 5 V 5 Z'/></clipPath><mask id='m'><rect width='5' height='5'/></mask><filter id='f'><feGaussianBlur stdDeviation='2'/></filter>" } }

// values that depend on other values
macro_rules! rel { () => { "{|font-size='2em'|font-size='150%'|font-size='larger'|font-size='20'|font-weight='bolder'|font-stretch='wider'|stroke-width='1em'|letter-spacing='1em'|stroke-dasharray='1em 2'|stroke-width='1em' font-size='20'|stroke-width='1em' font-size='2em'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P05 shape", tpl: concat!("<svg><defs>", ds!(), "<rect id='r' width='3' height='4' {|fill='blue'|opacity='0.5'|transform='scale(2)'|x='@k'|y='3'|clip-path='url(#c)'|display='none'|visibility='visible'}/></defs><use xlink:href='#r' ", ua!(), " ", us!(), "/></svg>"), opt: o },
    Case { name: "P05 group", tpl: concat!("<svg><defs>", ds!(), "<g id='r' {|fill='blue'|opacity='0.5'|transform='scale(2)'|mask='url(#m)'}><path d='M 1 1 L @k 5 L 3 3' {|fill='green'}/><circle r='@p'/></g></defs><use xlink:href='#r' ", ua!(), " ", us!(), "/></svg>"), opt: o },
    Case { name: "P05 kind of the referenced element", tpl: "<svg><defs {|fill='blue'}><{1:symbol {|viewBox='0 0 5 5'}|svg width='5' height='5'|g|a|switch|use xlink:href='#q'|text|image width='5' height='5' xlink:href='data:image/png;base64,AAAA'|ellipse rx='3' ry='2'|line x2='5'|polygon points='0 0 1 @k 2 2'|clipPath|linearGradient} id='r' {|opacity='0.5'|transform='scale(2)'|x='2'}>{1:<path d='M 1 1 L @k 5 L 3 3'/>|<path d='M 1 1 L @k 5 L 3 3'/>|<path d='M 1 1 L @k 5 L 3 3'/>|<path d='M 1 1 L @k 5 L 3 3'/>|<path d='M 1 1 L @k 5 L 3 3'/>||a|||||<path d='M 1 1 L @k 5 L 3 3'/>|<stop offset='0'/>}</{1:symbol|svg|g|a|switch|use|text|image|ellipse|line|polygon|clipPath|linearGradient}><path id='q' d='M 1 1 L @k 5'/></defs><use xlink:href='#r' {|x='@k' y='1'|transform='scale(2)' x='1'|width='5' height='6'|opacity='0.5'|fill='red'}/></svg>", opt: o },
    Case { name: "P05 several uses", tpl: concat!("<svg><defs>", ds!(), "<rect id='r' width='3' height='4' {|transform='scale(2)'}/>{|<circle id='q' r='3'/>|<use id='v' xlink:href='#r'/>}</defs><use xlink:href='#r' x='@k' {|fill='red'}/>{|<use xlink:href='#r' {|fill='red'}/>|<use xlink:href='#q' y='@k'/>|<use xlink:href='#v' y='@k'/>|<rect width='5' height='5'/><use xlink:href='#q' y='2'/><circle r='1'/>|<use xlink:href='#nope'/>}</svg>"), opt: o },
    Case { name: "P05 where the use is", tpl: concat!("<svg><defs>", ds!(), "<path id='r' d='M 0 0 H 5 V @k Z' {|transform='scale(2)'|fill='blue'}/></defs><{1:g fill='red'|g transform='scale(2)'|g opacity='0.5'|clipPath id='k'|mask id='k'|pattern id='k' width='5' height='5'|symbol id='k'|switch|a|defs|svg width='50%' height='9'|marker id='k'}><use xlink:href='#r' {|x='@k'|opacity='0.5'|fill='green'|id='z'|clip-path='url(#c)'}/>{|<rect width='4' height='3'/>}</{1:g|g|g|clipPath|mask|pattern|symbol|switch|a|defs|svg|marker}><path d='M 1 1 L 9 9 L 8 3' {|clip-path='url(#k)'|mask='url(#k)'|fill='url(#k)'|marker-end='url(#k)'}/>{|<use xlink:href='#k'/>|<use xlink:href='#z'/>}</svg>"), opt: o },
    Case { name: "P05 the referenced element is used otherwise", tpl: concat!("<svg><defs><path id='r' d='M 0 0 H 5 V @k Z'/><clipPath id='k'><use xlink:href='#{r|q}'/></clipPath><g id='g' {|fill='red'}><rect id='q' width='2' height='3'/></g></defs><use xlink:href='#{r|q|g}' {|x='@k'}/><rect width='9' height='9' {|clip-path='url(#k)'}/>{|<text><textPath xlink:href='#r'>a</textPath></text>}{|<use xlink:href='#{r|q|g}'/>}</svg>"), opt: o },
    Case { name: "P05 chains of uses", tpl: "<svg><defs><path id='r' d='M 0 0 H 5 V @k Z' {|fill='blue'}/><use id='s' xlink:href='#r' {|x='@k'|opacity='0.5'|transform='scale(2)'}/><g id='t' {|fill='green'}><use xlink:href='#s' {|y='@k'|fill='red'}/></g></defs><use xlink:href='#{s|t}' {|x='@k'|opacity='0.5'|transform='scale(2)'}/></svg>", opt: o },
    Case { name: "P05 with other tasks", tpl: "<svg><defs><{1:rect width='3' height='@p'|circle r='@p'|g stroke='blue'} id='r' {|transform='scale(2)'|opacity='0.5'|transform='translate(1 @k)'}>{1:||<path d='M 1 1 L 5 5 L 3 3'/>}</{1:rect|circle|g}></defs><g {|transform='scale(2)'|opacity='0.5'}><use xlink:href='#r' stroke='red' {|x='@k'|transform='scale(3)'|opacity='0.5'}/></g></svg>", opt: more },
    Case { name: "P05 values relative to others", tpl: concat!("<svg ", rel!(), "><defs><{1:text|path d='M 1 1 L 5 5'|g} id='r' stroke='red' ", rel!(), ">{1:a||<path d='M 1 1 L 5 7' stroke-width='1em'/>}</{1:text|path|g}></defs><use xlink:href='#r' ", rel!(), "/></svg>"), opt: o },
];

pub fn run(c: &Case) { keeps_rendering(c, false) }
