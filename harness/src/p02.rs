use crate::common::*;

fn conv(o: &mut CleaningOptions) { o.convert_shapes = true; }
fn conv_path(o: &mut CleaningOptions) { o.convert_shapes = true; o.paths_to_relative = true; o.remove_unused_segments = true; o.convert_segments = true; }

/// presentation attributes on the shape or above it
macro_rules! deco { () => { "{|stroke='red' stroke-width='@p'|fill='none' stroke='url(#a)'|transform='translate(@i @i)'|opacity='@u'|fill-rule='evenodd' visibility='hidden'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P02 line", tpl: concat!("<svg><line {|x1='@i'|x1='@imm'|x1='@i%'} {|y1='@i'|y1='@ipt'} {|x2='@i'|x2='@iin'} {|y2='@i'|y2='@ipx'} ", deco!(), "/></svg>"), opt: conv },
    Case { name: "P02 rect", tpl: "<svg><rect {|x='@i'|x='@i%'} {|y='@i'|y='@imm'} {|width='@i'|width='@pcm'} {|height='@i'|height='@p%'} {|rx='@q'|rx='@pmm'} {|ry='@q'} {|id='r' stroke='red'}/></svg>", opt: conv },
    Case { name: "P02 rect attributes", tpl: concat!("<svg><rect id='r' x='@i' width='@p' height='@p' {|rx='0'|ry='@Q'} ", deco!(), "/></svg>"), opt: conv },
    Case { name: "P02 rect markers", tpl: "<svg><marker id='m'><path d='M 0 0 L 1 1'/></marker><g {|marker-start='url(#m)'|marker-mid='url(#m)'}><{rect width='@p' height='@p'|line x2='@p'|polygon points='0 0 @p 0 1 @p'} id='r' {|marker-end='url(#m)'|marker-start='none'}/></g>{|<use xlink:href='#r' {|marker-start='url(#m)'}/>|<g marker-mid='url(#m)'><use xlink:href='#r'/></g>}</svg>", opt: conv },
    Case { name: "P02 polyline and polygon", tpl: concat!("<svg><{polyline|polygon} {|points='@i @i'|points='@i @i @i @i'|points='@i @i @i @i @i @i'|points='@i @i @i'|points='@i @i @i @i @i'|points='@i @i @i @i @i @i @i @i'} ", deco!(), "/></svg>"), opt: conv },
    Case { name: "P02 with path processing", tpl: "<svg><{line x1='@k' y2='@k' stroke='red'|rect x='@k' y='1' width='@p' height='@p'|polyline points='@k @k @k @k 1 1' stroke='red'|polygon points='0 0 @k @k @k 1'|polygon points='0 0 @k @k'}/></svg>", opt: conv_path },
    Case { name: "P02 several shapes", tpl: "<svg><g fill='blue' {|transform='scale(2)'}><rect id='a' width='@p' height='@p'/><polygon id='b' points='0 0 @i 0 1 @i'/></g><use xlink:href='{#a|#b|#c}' x='@i'/><clipPath id='p'><polygon id='c' points='1 1 @i 0 1 @i' clip-rule='evenodd'/></clipPath><line x1='@i' stroke='red' clip-path='url(#p)'/></svg>", opt: conv },
];

pub fn run(c: &Case) {
    keeps_rendering(c, false)
}
