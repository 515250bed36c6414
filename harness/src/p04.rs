use crate::common::*;

fn ungroup(o: &mut CleaningOptions) { o.ungroup_groups = true; }
fn group(o: &mut CleaningOptions) { o.group_by_style = true; }
fn both(o: &mut CleaningOptions) { o.ungroup_groups = true; o.group_by_style = true; }
fn tr(o: &mut CleaningOptions) { o.ungroup_groups = true; o.apply_transform_to_shapes = true; o.apply_transform_to_paths = true; o.paths_to_relative = true; }
fn none(_: &mut CleaningOptions) {}
fn defs(o: &mut CleaningOptions) { o.ungroup_defs = true; }

macro_rules! defs { () => { "<defs><clipPath id='c'><path d='M 0 0 H 5 V 5 Z'/></clipPath><mask id='m'><rect width='5' height='5'/></mask><filter id='f'><feGaussianBlur stdDeviation='2'/></filter><linearGradient id='l'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient></defs>" } }
// attributes a group or an element may carry
macro_rules! ga { () => { "{|fill='red'|fill='url(#l)'|stroke='red' stroke-width='@p'|opacity='@O'|transform='translate(@k 1)'|transform='scale(2)'|clip-path='url(#c)'|mask='url(#m)'|filter='url(#f)'|display='none'|display='inline'|visibility='hidden'|id='g'|font-size='@p'|xml:space='preserve'|class='x'|fill-opacity='@O'}" } }
macro_rules! ea { () => { "{|fill='blue'|stroke='blue'|opacity='@O'|transform='translate(@k 2)'|clip-path='url(#c)'|mask='url(#m)'|filter='url(#f)'|display='none'|display='inline'|visibility='visible'|id='e'}" } }
// siblings to be grouped
macro_rules! sa { () => { "{|fill='red'|fill='red' stroke='blue'|opacity='@O1'|transform='translate(@k1 1)'|transform='scale(2)'|clip-path='url(#c)'|filter='url(#f)'|fill='red' id='i'|visibility='hidden'}" } }

// values that depend on other values
macro_rules! rel { () => { "{|font-size='2em'|font-size='150%'|font-size='larger'|font-size='20'|font-weight='bolder'|font-stretch='wider'|stroke-width='1em'|letter-spacing='1em'|stroke-dasharray='1em 2'|stroke-width='1em' font-size='20'|stroke-width='1em' font-size='2em'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P04 ungroup one child", tpl: concat!("<svg>", defs!(), "<g ", ga!(), "><{path d='M 1 1 L @k 5 L 3 3'|rect width='3' height='4'} ", ea!(), " /></g></svg>"), opt: ungroup },
    Case { name: "P04 ungroup an element that is not a shape", tpl: concat!("<svg>", defs!(), "<rect id='s' width='3' height='4'/><g ", ga!(), "><{1:use xlink:href='#s'|image width='5' height='5' xlink:href='data:image/png;base64,AAAA'|text|svg width='10' height='10'|a|switch|g} {|opacity='0.5'|transform='scale(2)'}>{1:||ab|<path d='M 0 0 L 1 1'/>|<path d='M 0 0 L 1 1'/>|<path d='M 0 0 L 1 1'/><path d='M 0 0 L 1 2'/>}</{1:use|image|text|svg|a|switch|g}></g></svg>"), opt: ungroup },
    Case { name: "P04 ungroup several children", tpl: concat!("<svg>", defs!(), "<g ", ga!(), "><path d='M 1 1 L @k 5 L 3 3' {|transform='scale(3)'|opacity='0.5'|fill='blue'|display='none'|transform='scale(3)' id='r'}/><{1:rect width='3' height='4' transform='translate(1 2)'|rect width='3' height='4'|use xlink:href='#r' transform='scale(2)'|use xlink:href='#r'|text transform='scale(2)'}>{1:||||a}</{1:rect|rect|use|use|text}></g>{|<use xlink:href='#r'/>}</svg>"), opt: ungroup },
    Case { name: "P04 ungroup nested groups", tpl: concat!("<svg>", defs!(), "<g {|opacity='@O'|transform='scale(2)'|fill='red'|clip-path='url(#c)'|id='a'}><g {|opacity='@O'|transform='translate(@k 1)'|stroke='blue'|mask='url(#m)'|id='b'}><path d='M 1 1 L 5 5 L 3 3' {|opacity='0.5'|transform='scale(3)'|filter='url(#f)'}/>{|<path d='M 1 1 L 5 5 L 3 4' {|opacity='0.5'|transform='scale(3)'}/>}</g>{|<rect width='4' height='3'/>|<g/>|<g filter='url(#f)'/>}</g>{|<use xlink:href='#a'/>|<use xlink:href='#b' {|transform='scale(2)'}/>}</svg>"), opt: ungroup },
    Case { name: "P04 ungroup in containers", tpl: concat!("<svg>", defs!(), "<{1:defs|symbol|pattern width='5' height='5'|mask|marker|clipPath|switch|a|svg} id='d'><g {|fill='red'|opacity='0.5'|transform='scale(2)'}><path id='p' d='M 1 1 L 5 5 L 3 3' {|opacity='0.5'|transform='scale(3)'}/>{|<path d='M 1 1 L 5 5 L 3 4' transform='scale(2)'/>}</g>{|<rect width='4' height='3'/>}{1:</defs>|</symbol>|</pattern>|</mask>|</marker>|</clipPath>|</switch>|</a>|</svg>}{|<use xlink:href='#d'/>|<use xlink:href='#p'/>|<rect width='9' height='9' {1:||fill='url(#d)'|mask='url(#d)'||clip-path='url(#d)'}/>}</svg>"), opt: ungroup },
    Case { name: "P04 ungroup and fold transforms", tpl: "<svg><g transform='{translate(@k 1)|scale(2)|matrix(0 1 -1 0 0 0)|scale(2 3)}' {|stroke='red'|stroke='red' stroke-width='@p'|opacity='0.5'}><{rect x='@k' width='3' height='4'|circle r='@p' stroke='red'|path d='M 1 1 L @k 2'|image width='3' height='4' xlink:href='data:image/png;base64,AAAA'} {|transform='scale(2)'|transform='translate(1 @k)'}/>{|<ellipse rx='3' ry='@p'/>|<text>a</text>|<rect width='2' height='1' id='r' transform='scale(2)'/>}</g>{|<use xlink:href='#r' {|stroke-width='3'}/>}</svg>", opt: tr },
    Case { name: "P04 group by style", tpl: concat!("<svg>", defs!(), "<path d='M 1 1 L 5 5 L 3 3' ", sa!(), "/><path d='M 1 1 L 5 5 L 3 4' ", sa!(), "/>{|<rect width='3' height='4' ", sa!(), "/>|<text fill='red'>ab</text>}</svg>"), opt: group },
    Case { name: "P04 group by style within a group", tpl: concat!("<svg>", defs!(), "<g {|fill='red'|opacity='@O'|transform='scale(2)'|clip-path='url(#c)'|fill='blue' id='g'}><path d='M 1 1 L 5 5 L 3 3' {fill='red'|fill='red' stroke='blue'|transform='translate(@k1 1)'|opacity='0.5'}/><path d='M 1 1 L 5 5 L 3 4' {fill='red'|fill='red' stroke='blue'|fill='red' transform='translate(@k1 1)'|transform='translate(@k1 1)'|opacity='0.5'}/></g>{|<path d='M 1 2 L 3 5 L 4 4' {fill='red'|stroke='blue'|stroke='blue' fill='red'}/>|<use xlink:href='#g'/>}</svg>"), opt: group },
    Case { name: "P04 group by style, other elements", tpl: concat!("<svg {|fill='green'}>", defs!(), "<rect id='s' width='3' height='4' fill='red'/><{1:use xlink:href='#s'|image width='5' height='5' xlink:href='data:image/png;base64,AAAA'|text|svg width='10' height='10'|a|switch|path d='M 0 0 L 1 2'|g} {fill='red'|fill='red' stroke='blue'|{1:transform='scale(2)'|transform='scale(2)'|transform='scale(2)'||transform='scale(2)'|transform='scale(2)'|transform='scale(2)'|transform='scale(2)'}}>{1:||ab|<path d='M 0 0 L 1 1'/>|<path d='M 0 0 L 1 1'/>|<path d='M 0 0 L 1 1' fill='red'/><path d='M 0 0 L 1 2' fill='red'/>||<path d='M 0 0 L 1 1'/>}</{1:use|image|text|svg|a|switch|path|g}><path d='M 1 1 L 5 5 L 3 4' {fill='red'|transform='scale(2)'|}/></svg>"), opt: group },
    Case { name: "P04 group by style in containers", tpl: concat!("<svg><defs><{1:symbol|pattern width='5' height='5'|mask|marker|clipPath|g|switch|svg} id='d' {|fill='red'}><path id='p' d='M 1 1 L 5 5 L 3 3' {fill='red'|transform='scale(3)'}/><path d='M 1 1 L 5 5 L 3 4' {fill='red'|transform='scale(3)'}/>{|<rect width='4' height='3'/>|<rect width='4' height='3' fill='red' transform='scale(3)'/>}{1:</symbol>|</pattern>|</mask>|</marker>|</clipPath>|</g>|</switch>|</svg>}</defs>{<use xlink:href='#d'/>|<use xlink:href='#p'/>|<rect width='9' height='9' {1:|fill='url(#d)'|mask='url(#d)'||clip-path='url(#d)'}/>|<path d='M 0 0 L 9 9' marker-start='url(#d)'/>}</svg>"), opt: group },
    Case { name: "P04 group by style in a nested svg", tpl: "<svg><svg width='9' height='9'{| fill='red'}><path d='M 1 1 L 5 5 L 3 3' {fill='blue'|transform='scale(3)'|fill='red' transform='scale(3)'}/><path d='M 1 1 L 5 5 L 3 4' {fill='blue'|transform='scale(3)'|fill='red' transform='scale(3)'}/>{|<rect width='4' height='3' transform='scale(3)'/>}</svg></svg>", opt: group },
    Case { name: "P04 group by style, long runs", tpl: "<svg>{|<path d='M 9 9 L 3 4'/>}<path d='M 1 1 L 5 5 L 3 3' {|fill='red'} {|stroke='blue'}/><path d='M 1 1 L 5 5 L 3 4' {|fill='red'} {|stroke='blue'}/><path d='M 1 1 L 5 5 L 3 5' {|fill='red'} {|stroke='blue'}/><path d='M 1 1 L 5 5 L 3 6' {|fill='red'} {|stroke='blue'}/><path d='M 1 1 L 5 5 L 3 7' {|fill='red'} {|stroke='blue'}/></svg>", opt: group },
    Case { name: "P04 group and ungroup", tpl: concat!("<svg>", defs!(), "<g {|fill='red'|opacity='@O'|transform='scale(2)'|clip-path='url(#c)'}><path d='M 1 1 L 5 5 L 3 3' {fill='red'|opacity='0.5'|transform='translate(@k1 1)'}/>{|<path d='M 1 1 L 5 5 L 3 4' {fill='red'|opacity='0.5'|transform='translate(@k1 1)'}/>}</g><path d='M 1 2 L 3 5 L 4 4' {fill='red'|stroke='blue'|opacity='0.5'|transform='scale(2)'}/><rect width='3' height='4' {fill='red'|stroke='blue'|transform='scale(2)'}/></svg>"), opt: both },
    Case { name: "P04 definitions are moved", tpl: "<svg><g {|fill='red'|opacity='0.5'|transform='scale(2)'|font-size='@p'|color='red'|visibility='hidden'|display='none'|clip-path='url(#d)'} id='g'><{1:linearGradient|clipPath|clipPath|mask|pattern width='5' height='5'|filter|filter|marker|symbol|symbol|defs} id='d'>{1:<stop offset='0' stop-color='red'/><stop offset='1'/>|<path d='M 1 1 L 5 5 L 3 3' {|stroke='blue'}/>|<rect id='s' width='2' height='3'/>|<path d='M 1 1 L 5 5 L 3 3'/>|<path d='M 1 1 L 5 5 L 3 3'/>|<feGaussianBlur stdDeviation='2'/>|<feFlood flood-color='red'/>|<path d='M 1 1 L 5 5 L 3 3'/>|<g><clipPath id='c2'><rect id='s' width='2' height='3'/></clipPath><path d='M 1 1 L 5 5 L 3 3' clip-path='url(#c2)'/></g>|<path d='M 1 1 L 5 5 L 3 3'/>|<path id='s' d='M 1 1 L 5 5 L 3 3'/>}</{1:linearGradient|clipPath|clipPath|mask|pattern|filter|filter|marker|symbol|symbol|defs}><rect width='4' height='3'/></g>{|<use xlink:href='#d'/>|<use xlink:href='#s'/>|<path d='M 0 0 L 9 9 L 3 8' {1:fill='url(#d)'|clip-path='url(#d)'|clip-path='url(#d)'|mask='url(#d)'|fill='url(#d)'|filter='url(#d)'|filter='url(#d)'|marker-start='url(#d)'}/>}</svg>", opt: none },
    Case { name: "P04 definitions are ungrouped", tpl: "<svg><defs {|fill='red'}><{1:linearGradient id='d'|clipPath id='d'|g fill='blue' id='d'|rect width='3' height='4' id='d'|symbol id='d'|path d='M 1 1 L 5 5 L 3 3'|defs}>{1:<stop offset='0'/><stop offset='1' stop-color='red'/>|<path id='e' d='M 1 1 L 5 5 L 3 3'/>|<path id='e' d='M 1 1 L 5 5 L 3 3'/>||<path id='e' d='M 1 1 L 5 5 L 3 3'/>||<path id='e' d='M 1 1 L 5 5 L 3 3'/>}</{1:linearGradient|clipPath|g|rect|symbol|path|defs}>{|<text id='x'>a</text>}</defs><rect width='4' height='3' {1:fill='url(#d)'|clip-path='url(#d)'}/>{|<use xlink:href='#d'/>|<use xlink:href='#e'/>|<use xlink:href='#x'/>}</svg>", opt: defs },
    Case { name: "P04 ungroup, values relative to others", tpl: concat!("<svg {|font-size='20'|font-weight='bold'|letter-spacing='1em'}><g ", rel!(), " {|fill='red'}><text x='1' y='9' stroke='red' ", rel!(), ">a</text>{|<text x='1' y='19' ", rel!(), ">b</text>|<path d='M 1 1 L 5 5' stroke='red' ", rel!(), "/>}</g></svg>"), opt: ungroup },
    Case { name: "P04 group, values relative to others", tpl: concat!("<svg {|font-size='20'|font-weight='bold'|letter-spacing='1em'}><g ", rel!(), " {|fill='red'}><text x='1' y='9' stroke='red' ", rel!(), ">a</text>{|<text x='1' y='19' ", rel!(), ">b</text>|<path d='M 1 1 L 5 5' stroke='red' ", rel!(), "/>}</g></svg>"), opt: group },
    Case { name: "P04 definitions with values relative to others", tpl: concat!("<svg><g ", rel!(), "><g ", rel!(), "><{1:clipPath|mask|pattern width='5' height='5'|marker} id='d' ", rel!(), "><{2:text|path d='M 1 1 L 5 5'} stroke='red' ", rel!(), ">{2:a|}</{2:text|path}></{1:clipPath|mask|pattern|marker}></g></g><path d='M 1 1 L 5 5 H 3 Z' {1:clip-path='url(#d)'|mask='url(#d)'|fill='url(#d)'|marker-start='url(#d)'}/></svg>"), opt: none },
    Case { name: "P04 definitions that interpolate colors", tpl: "<svg {|color-interpolation='sRGB'}><g {|color-interpolation='linearRGB'|color-interpolation-filters='sRGB'|opacity='0.5'}><{4:g|switch} {|color-interpolation='linearRGB'|color-interpolation='sRGB'}><{1:linearGradient|radialGradient|mask|pattern width='2' height='3'|clipPath|filter} id='d' {|color-interpolation='linearRGB'}>{1:<stop stop-color='red'/><stop offset='1'/>|<stop/><stop offset='1' stop-color='blue'/>|<circle r='5' fill='red'/>|<circle r='5'/>|<circle r='5'/>|<feFlood/>}</{1:linearGradient|radialGradient|mask|pattern|clipPath|filter}></{4:g|switch}></g><path d='M 1 1 L 5 5 H 3 Z' {1:fill='url(#d)'|stroke='url(#d)'|mask='url(#d)'|fill='url(#d)'|clip-path='url(#d)'|filter='url(#d)'}/></svg>", opt: |o| { ungroup(o); group(o); o.ungroup_defs = true; } },
    Case { name: "P04 definitions in font units", tpl: "<svg><g {|font-size='20'|font-size='2em'}><g {|font-size='10'|font-family='a'|fill='red'|font-size='150%'}><{1:linearGradient x1='1em'|radialGradient r='2em'|clipPath|mask x='1em'|pattern width='2em' height='3ex'|filter x='1em'|marker markerWidth='2em' markerHeight='3'} id='d' {|font-size='7'|font-size='2em'} {1:gradientUnits='userSpaceOnUse'|gradientUnits='userSpaceOnUse'|||||}>{1:<stop offset='0'/><stop offset='1' stop-color='red'/>|<stop offset='0'/><stop offset='1' stop-color='red'/>|<rect width='3em' height='3' {|font-size='4'}/>|<rect width='3em' height='3'/>|<rect width='3em' height='3' {|font-size='4'}/>|<feFlood/>|<path d='M 1 1 L 5 5' stroke='red' stroke-width='2em'/>}</{1:linearGradient|radialGradient|clipPath|mask|pattern|filter|marker}></g></g><path d='M 1 1 L 5 5 H 3 Z' {1:fill='url(#d)'|fill='url(#d)'|clip-path='url(#d)'|mask='url(#d)'|fill='url(#d)'|filter='url(#d)'|marker-start='url(#d)'}/></svg>", opt: none },
];

pub fn run(c: &Case) { keeps_rendering(c, false) }
