use crate::common::*;

fn iv(o: &mut CleaningOptions) { o.remove_invisible_elements = true; }
fn ud(o: &mut CleaningOptions) { o.remove_unused_defs = true; }
fn both(o: &mut CleaningOptions) { iv(o); ud(o); }
fn more(o: &mut CleaningOptions) { iv(o); ud(o); o.ungroup_groups = true; o.resolve_use = true; o.convert_shapes = true; o.remove_unused_segments = true; o.paths_to_relative = true; }

macro_rules! vi { () => { "{|display='none'|display='inline'|visibility='hidden'|opacity='@O'|fill='none'|fill-opacity='@O'|stroke='red' fill='none'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P07 display", tpl: concat!("<svg><g {|display='none'|display='inline'|visibility='hidden'|fill='none'}>{1:|<g>}<rect id='r' width='3' height='4' ", vi!(), "/>{1:|</g>}{|<circle r='2' display='none'/>}</g><defs {|display='none'}><g id='h' {|display='none'}><path id='q' d='M 0 0 L 5 5 L 0 6'/></g></defs>{|<use xlink:href='#{r|q|h}' {|display='none'}/>}{|<rect width='5' height='6' display='inline'/>}</svg>"), opt: iv },
    Case { name: "P07 switch", tpl: concat!("<svg><switch>{|<path d='M 1 1 L 5 5 L 1 6' {|display='none'|visibility='hidden'|opacity='@O'}/>|<use/>|<path d=''/>|<rect width='0' height='5'/>|<g display='none'/>}<rect width='3' height='@p'/><circle r='2'/></switch></svg>"), opt: both },
    Case { name: "P07 shapes without an outline", tpl: "<svg><g {|marker-end='url(#k)'|stroke='red'}><path {d=''|d='M 1 1'|d='M 1 1 L 2 2'|d='M 1 1 Z'|} {|id='a'}/><rect width='{0|@z|@p|5%}' height='{0|@n|@n%|3}' {|id='a'}/><polyline {|points='1 1'|points='1 1 2 2'}/><circle {|r='0'|r='@z'}/></g><marker id='k'><rect width='1' height='1'/></marker>{|<use xlink:href='#a'/>}{|<text><textPath xlink:href='#a'>x</textPath></text>}<path d='M 1 1 L 5 5 L 1 6'/></svg>", opt: iv },
    Case { name: "P07 clip paths", tpl: "<svg><defs><clipPath id='c' {|clip-path='url(#d)'}>{|<title>t</title>}{|<rect id='r' width='{3|0}' height='4'/>|<path d='' id='r'/>|<circle r='2' id='r' display='none'/>|<text id='r'>a</text>|<use xlink:href='#q' id='r'/>|<use xlink:href='#g'/>|<g id='r'><rect width='2' height='2'/></g>|<path id='r' d='M 1 1 H 5 V 5 Z' visibility='hidden'/>}{|<circle r='@p'/>}</clipPath><clipPath id='d'>{|<rect width='9' height='9'/>}</clipPath><path id='q' d='M 1 1 H 5 V 5 Z'/><g id='g'><rect width='4' height='4'/></g></defs><g clip-path='url(#{c|d})'><rect width='8' height='3' {|id='k'}/></g><path d='M 1 1 L 5 5 L 1 6' {|clip-path='url(#c)'|clip-path='url(#d)'}/>{|<use xlink:href='#{k|r|q}'/>}</svg>", opt: iv },
    Case { name: "P07 clipped and used", tpl: "<svg><defs><clipPath id='c'>{|<rect width='4' height='4'/>}</clipPath><g id='a' {|clip-path='url(#c)'}><rect id='b' width='3' height='3' {|clip-path='url(#c)'}/></g><linearGradient id='l'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><mask id='m'><rect width='9' height='9' {|clip-path='url(#c)'} fill='white'/></mask><pattern id='p' width='5' height='5'><rect width='2' height='@p' {|clip-path='url(#c)'} fill='url(#l)'/></pattern></defs><use xlink:href='#{a|b}' {|clip-path='url(#c)'}/>{|<g><use xlink:href='#b'/></g>}<path d='M 1 1 L 5 5 L 1 6' fill='url(#{p|l})' {|mask='url(#m)'}/></svg>", opt: both },
    Case { name: "P07 filters", tpl: "<svg><defs><filter id='f' {|xlink:href='#h'|x='0' width='@p'}>{|<title/>}{|<feOffset dx='@k'/>|<feFlood/>|<feColorMatrix type='matrix' values='1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0' {|in='SourceAlpha'|result='r'}/>|<feColorMatrix type='saturate' values='1'/>}</filter><filter id='h'>{|<feGaussianBlur stdDeviation='@n'/>}</filter></defs><g {|filter='url(#f)'}><rect id='r' width='8' height='3' {|filter='url(#h)'|fill='none'|display='none'|visibility='hidden'}/></g>{|<path d='M 1 1 L 5 5 L 1 6' filter='url(#h)'/>}{|<use xlink:href='#r'/>}<circle r='1'/></svg>", opt: iv },
    Case { name: "P07 gradients without stops", tpl: "<svg><linearGradient id='a' {|x1='0.25'|gradientUnits='userSpaceOnUse'}/><linearGradient id='b' {|xlink:href='#a'}>{|<stop offset='0'/><stop offset='1' stop-color='red'/>}</linearGradient><radialGradient id='c' {|xlink:href='#b'} {|r='0.25'}/><g fill='url(#{a|b})' {|stroke='url(#a)'}><rect width='8' height='4' {|fill='url(#c)'|stroke='url(#b)'}/></g></svg>", opt: iv },
    Case { name: "P07 gradients with one stop", tpl: "<svg><linearGradient id='a'><stop offset='@O' stop-color='red' {|stop-opacity='@O'}/></linearGradient><linearGradient id='b' xlink:href='#a'/><radialGradient id='c' xlink:href='#b'>{|<stop offset='0' stop-opacity='0.5'/>}</radialGradient><g fill='url(#{a|b|c})' {|fill-opacity='@O'}><rect width='8' height='4' {|fill-opacity='@O'|fill='url(#a)'|fill='blue'|stroke='url(#a)'|stroke='url(#a)' stroke-opacity='@O'}/>{|<circle r='2' fill='green'/>}</g></svg>", opt: iv },
    Case { name: "P07 uses", tpl: "<svg><defs><g id='g' fill='red'>{<use id='u' {|xlink:href='#r'}/>|<rect id='u' width='2' height='0'/>}</g><path id='r' d='M 1 1 {|H 5 V 5 Z}'/></defs><use {|xlink:href='#g'|xlink:href='#r'|xlink:href='#u'} x='@k'/>{|<use/>}<path d='M 1 1 L 5 5 L 1 6' {|mask='url(#m)'}/><mask id='m'>{|<use {|xlink:href='#r'} fill='white'/>}</mask></svg>", opt: both },
    Case { name: "P07 unused definitions", tpl: "<svg {|fill='lime'}><defs {|stroke='red'}><{1:g|symbol|pattern|mask|clipPath|marker|a|switch|svg} id='a' {|fill='red'|opacity='0.5'|transform='scale(2)'}>{1:<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>|<rect id='r' width='3' height='@p'/>}{|<circle r='5'/>|<g id='s' {|stroke='green'}><path id='t' d='M 1 1 H 3 V 5'/></g>}</{1:g|symbol|pattern|mask|clipPath|marker|a|switch|svg}>{|<defs><circle id='s' r='3'/></defs>}</defs>{|<use xlink:href='#{r|s|t}' {|x='@k'}/>}{|<use xlink:href='#a'/>}<path d='M 1 1 L 5 5 L 1 6' {|fill='url(#a)'|mask='url(#a)'|clip-path='url(#a)'|marker-start='url(#a)'}/></svg>", opt: ud },
    Case { name: "P07 unused gradients and filters", tpl: "<svg><linearGradient id='a' {|xlink:href='#b'}>{|<stop offset='0'/><stop offset='1' stop-color='red'/>}</linearGradient><radialGradient id='b' {|cx='@o'}>{|<stop offset='0' stop-color='blue'/><stop offset='1' stop-color='red'/>}</radialGradient><filter id='f'><feOffset dx='2'/><feImage {|xlink:href='#r'}/></filter><rect id='r' width='5' height='5' {|fill='url(#a)'|fill='url(#b)'|filter='url(#f)'}/><pattern id='p' width='2' height='2' {|xlink:href='#q'}/><pattern id='q' width='1' height='1'><circle r='1'/></pattern><path d='M 1 1 L 5 5 L 1 6' {|fill='url(#p)'|stroke='url(#q)'}/></svg>", opt: both },
    Case { name: "P07 referenced by something hidden or removed", tpl: "<svg><defs><g id='a' {|display='none'|visibility='hidden'}><rect id='r' width='3' height='4' {|visibility='visible'}/></g><clipPath id='c'><use xlink:href='#{r|q}' {|display='none'}/></clipPath><path id='q' d='M 0 0 L 5 5 L 0 6' {|display='none'|visibility='hidden'}/></defs><use xlink:href='#{a|r|q}' {|visibility='visible'}/><rect width='8' height='3' {|clip-path='url(#c)'}/></svg>", opt: both },
    Case { name: "P07 with other tasks", tpl: concat!("<svg><defs><clipPath id='c'><rect width='@n' height='5'/></clipPath><linearGradient id='l'><stop offset='0' stop-opacity='@O'/></linearGradient><g id='g'><path id='q' d='M 0 0 {L 0 0|L 5 5 L @k 6}' fill='url(#l)'/></g></defs><g {|display='none'|visibility='hidden'|fill='none'}><use xlink:href='#{g|q}' {|clip-path='url(#c)'}/><rect width='@n' height='5' ", vi!(), "/></g></svg>"), opt: more },
];

pub fn run(c: &Case) { keeps_rendering(c, true) }
