use crate::common::*;

fn shapes(o: &mut CleaningOptions) { o.apply_transform_to_shapes = true; }
fn paths(o: &mut CleaningOptions) { o.apply_transform_to_paths = true; o.paths_to_relative = true; }
fn grads(o: &mut CleaningOptions) { o.apply_transform_to_gradients = true; }
fn groups(o: &mut CleaningOptions) { o.apply_transform_to_shapes = true; o.apply_transform_to_paths = true; o.paths_to_relative = true; o.ungroup_groups = true; }
fn every(o: &mut CleaningOptions) { groups(o); o.apply_transform_to_gradients = true; o.convert_shapes = true; o.remove_unused_segments = true; o.convert_segments = true; }

macro_rules! ts { () => { "{translate(@i @i)|translate(@i)|scale(@t)|scale(2 @t)|scale(-1 @t)|translate(@k 1) scale(2)|translate(1 1) scale(-1)|matrix(0 @t @t 0 1 2)|matrix(2 0 0 2 @k @k)|matrix(1 0 @k 1 0 0)|matrix(1 @t 0 1 0 0)|matrix(3 4 -4 3 1 2)|matrix(3 4 4 -3 1 2)|matrix(0 1 -1 0 0 0)}" } }
macro_rules! shape { () => { "{rect x='@k' y='@k' width='@p' height='@p'|rect y='@k' width='2' height='3' rx='1' ry='0.5'|rect width='4' height='6' rx='@S'|rect x='1' width='50%' height='3'|rect x='1' width='5' height='3mm'|rect width='4' height='4' rx='1mm'|circle cx='@k' r='@p'|circle cx='1' cy='@k' r='2mm'|circle r='5%'|ellipse cx='@k' cy='2' rx='@p' ry='3'|ellipse rx='2mm' ry='3'|ellipse cx='1%' rx='3' ry='2'|line x1='@k' y2='@k'|line x2='@k' y1='3mm'|line x1='@k' x2='@k' y1='1' y2='2'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P03 shapes", tpl: concat!("<svg><", shape!(), " stroke='red' transform='", ts!(), "'/></svg>"), opt: shapes },
    Case { name: "P03 stroke of a shape", tpl: "<svg {|stroke-width='@p'|stroke-width='2mm'|stroke-dasharray='@p 4'|stroke-dashoffset='@i'}><g {|stroke-dasharray='@p 3'|stroke-dashoffset='@i'|stroke-width='@n'}><{circle r='3'|line x2='@p'} stroke='red' {|stroke-width='@n'|stroke-width='1mm'|stroke-width='5%'} {|stroke-dasharray='none'|stroke-dasharray='@p 1 2'|stroke-dasharray='1mm 2'} {|stroke-dashoffset='@i'|stroke-dashoffset='1em'} transform='{translate(2 3)|scale(2)|scale(-1)|scale(0.5)|matrix(0 1 -1 0 0 0)}'/></g></svg>", opt: shapes },
    Case { name: "P03 linked paint and effects of a shape", tpl: "<svg><linearGradient id='l' {|gradientUnits='userSpaceOnUse' x1='@k'}><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><pattern id='p' width='1' height='1'><path d='M 0 0 L 1 1'/></pattern><clipPath id='c' {|clipPathUnits='objectBoundingBox'}><path d='M 0 0 H 5 V 5 Z'/></clipPath><mask id='m'><rect width='5' height='5'/></mask><filter id='f'><feGaussianBlur stdDeviation='2'/></filter><marker id='k'><path d='M 0 0 L 1 1'/></marker><g {|fill='url(#l)'|stroke='url(#p)'|fill='blue' stroke='none'|marker-start='url(#k)'}><{rect width='5' height='6'|line x2='5' y2='1'} {|fill='url(#l)'|fill='red'|stroke='url(#l)'|fill='url(#p)'|stroke='red'|clip-path='url(#c)'|mask='url(#m)'|filter='url(#f)'|marker-end='url(#k)'} transform='{translate(@k 1)|scale(2)}'/></g></svg>", opt: shapes },
    Case { name: "P03 shape used elsewhere", tpl: "<svg>{1:<clipPath id='c'>|<defs>|<g>|<mask id='m'>|<g id='s'>}<{rect width='5' height='6'|circle r='@p'} id='r' stroke='red' transform='{translate(@k 1)|scale(2)}'/>{1:</clipPath>|</defs>|</g>|</mask>|</g>}<{use xlink:href='#r'|use xlink:href='#r' stroke-width='3'} {|transform='scale(2)'}/><path d='M 0 0 H 9 V 9 Z'/></svg>", opt: shapes },
    Case { name: "P03 paths", tpl: concat!("<svg><path stroke='red' d='{M|m} @k @k {L @k @k|l 1 @k|H @k|h @k|V @k|v 2|C @k 1 2 @k 3 3 S 1 @k 2 2|c @k 1 2 @k 3 3 s 1 @k 2 2|Q @k 1 2 @k T 4 @k|q @k 1 2 3 t 4 @k|A @p 3 {0|30} {0|1} {0|1} @k @k|a 3 @p 0 0 1 2 @k} {|Z|Z L 1 @k|Z m 1 @k l 1 1|H 3|V 3}' transform='", ts!(), "'/></svg>"), opt: paths },
    Case { name: "P03 stroke of a path", tpl: "<svg {|stroke-width='@p'|stroke-width='2mm'|stroke-dasharray='@p 4'|stroke-dashoffset='@i'}><g {|stroke-dasharray='@p 3'|stroke-dashoffset='@i'|stroke-width='@n'}><path d='M 0 0 L @p 1' stroke='red' {|stroke-width='@n'|stroke-width='1mm'|stroke-width='5%'} {|stroke-dasharray='none'|stroke-dasharray='@p 1 2'|stroke-dasharray='1mm 2'} {|stroke-dashoffset='@i'|stroke-dashoffset='1em'} transform='{translate(2 3)|scale(2)|scale(-1)|scale(0.5)|matrix(0 1 -1 0 0 0)}'/></g></svg>", opt: paths },
    Case { name: "P03 linked paint and effects of a path", tpl: "<svg><linearGradient id='l' {|gradientUnits='userSpaceOnUse' x1='@k'}><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><pattern id='p' width='1' height='1'><path d='M 0 0 L 1 1'/></pattern><clipPath id='c' {|clipPathUnits='objectBoundingBox'}><path d='M 0 0 H 5 V 5 Z'/></clipPath><mask id='m'><rect width='5' height='5'/></mask><filter id='f'><feGaussianBlur stdDeviation='2'/></filter><marker id='k'><path d='M 0 0 L 1 1'/></marker><g {|fill='url(#l)'|stroke='url(#p)'|fill='blue' stroke='none'|marker-start='url(#k)'}><path d='M 0 0 L 1 5 L 5 5 Z' {|fill='url(#l)'|fill='red'|stroke='url(#l)'|fill='url(#p)'|stroke='red'|clip-path='url(#c)'|mask='url(#m)'|filter='url(#f)'|marker-end='url(#k)'} transform='{translate(@k 1)|scale(2)}'/></g></svg>", opt: paths },
    Case { name: "P03 path used elsewhere", tpl: "<svg>{1:<clipPath id='c'>|<defs>|<g>|<mask id='m'>|<pattern id='p' width='9' height='9'>}<path d='M 0 0 H 4 V 4 Z' id='r' stroke='red' transform='{translate(@k 1)|scale(2)}'/>{1:</clipPath>|</defs>|</g>|</mask>|</pattern>}<{use xlink:href='#r'|use xlink:href='#r' stroke-width='3'} {|transform='scale(2)'}/><path d='M 0 0 H 9 V 9 Z' {|clip-path='url(#c)'|mask='url(#m)'|fill='url(#p)'}/></svg>", opt: paths },
    Case { name: "P03 linear gradients", tpl: concat!("<svg><linearGradient id='b' {|gradientTransform='scale(2)'|x1='2'|y1='@k' x2='3'}><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><linearGradient id='a' {|gradientUnits='userSpaceOnUse'} {|x1='@k'|x1='25%'} {|y1='@k'} {|x2='@k'|x2='2mm'} {|y2='@k'} gradientTransform='{translate(@i @i)|scale(2)|scale(-1)|scale(2 3)|matrix(1 0 1 1 0 0)|matrix(0 1 -1 0 0 0)|matrix(1 0 @k 1 0 0)}' {xlink:href='#b'>|><stop offset='0'/><stop offset='1'/>}</linearGradient><rect fill='url(#a)' width='5' height='6'/>{|<circle r='5' fill='url(#b)'/>}</svg>"), opt: grads },
    Case { name: "P03 radial gradients", tpl: concat!("<svg><radialGradient id='b' {|gradientTransform='scale(2)'|cx='2'|fy='@k' r='3'}><stop offset='0'/><stop offset='1' stop-color='red'/></radialGradient><radialGradient id='a' {|gradientUnits='userSpaceOnUse'} {|cx='@k'|cx='25%'} {|cy='@k'} {|fx='@k'|fx='2mm'} {|fy='@k'} {|r='@p'|r='12.5%'} gradientTransform='{translate(@k @k)|scale(2)|scale(-1)|scale(2 3)|matrix(1 0 1 1 0 0)|matrix(0 1 -1 0 0 0)}' {xlink:href='#b'>|><stop offset='0'/><stop offset='1'/>}</radialGradient><rect fill='url(#a)' width='5' height='6'/></svg>"), opt: grads },
    Case { name: "P03 groups", tpl: "<svg><g transform='{translate(@k 1)|scale(2)|matrix(0 1 -1 0 0 0)|scale(2 3)|matrix(1 0 1 1 0 0)}' {|stroke='red'|opacity='0.5'}><{rect x='@k' width='3' height='4'|circle r='@p' stroke='red'|path d='M 1 1 L @k 2'|line x2='@k' stroke='red' stroke-width='2'} {|transform='scale(2)'|transform='translate(1 @k)'|transform='matrix(0 1 -1 0 0 0)'}/>{|<path d='M 1 1 h @k v 5'/>|<ellipse rx='3' ry='@p'/>|<text>a</text>|<g transform='scale(2)'><path d='M 1 1 h @k v 5'/></g>}</g></svg>", opt: groups },
    Case { name: "P03 all", tpl: "<svg><g transform='{translate(@k 1)|scale(2)|matrix(0 1 -1 0 0 0)|scale(-1)}'><{rect x='@k' width='3' height='4'|rect width='4' height='4' rx='1'|path d='M 1 1 L @k 2 A 2 2 0 0 1 4 4'|line x2='@k' stroke='red' stroke-width='2'|polygon points='0 0 @k 1 1 @k'} {|transform='scale(2)'|transform='translate(1 @k)'|transform='matrix(0 1 -1 0 0 0)'}/></g></svg>", opt: every },
    Case { name: "P03 strokes in font units", tpl: "<svg {|font-size='20'|stroke-width='1em'}><g {|font-size='10'|stroke-width='1em'|stroke-dasharray='1em 2'|stroke-dashoffset='1em'|stroke-width='1em' font-size='3'}><{path d='M 0 0 L 4 1'|circle r='2'|rect width='2em' height='3'|line x2='3'} stroke='red' {|font-size='3'|font-size='2em'|stroke-width='1em'|font-size='3' stroke-width='2em'} transform='{scale(2)|translate(1 2)|scale(-1)}'/></g></svg>", opt: groups },
];

pub fn run(c: &Case) { keeps_rendering(c, false) }
