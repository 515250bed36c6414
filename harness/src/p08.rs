use crate::common::*;
use crate::sym;

fn df(o: &mut CleaningOptions) { o.remove_default_attributes = true; }
fn nd(o: &mut CleaningOptions) { o.remove_needless_attributes = true; }
fn tx(o: &mut CleaningOptions) { o.remove_text_attributes = true; }
fn ga(o: &mut CleaningOptions) { o.remove_gradient_attributes = true; }
fn uc(o: &mut CleaningOptions) { o.remove_unused_coordinates = true; }
fn all(o: &mut CleaningOptions) { df(o); nd(o); tx(o); ga(o); uc(o); }

pub static CASES: &[Case] = &[
    Case { name: "P08 default paint", tpl: "<svg {|fill='black'|stroke='red'|stroke-width='@n'}><g {|fill='red'|fill='black'|stroke='none'|stroke='blue'}><path id='a' d='M 1 1 L 5 5 L 1 6' {|fill='black'|fill='none'} {|stroke='none'|stroke='red'} {|stroke-width='@p'|stroke-width='1'} {|fill-opacity='@O'|fill-rule='nonzero'}/></g></svg>", opt: df },
    Case { name: "P08 default values of used elements", tpl: "<svg><defs {|fill='black'|visibility='visible'}><g {|fill='black'|fill='lime'|stroke-width='1'|stroke-opacity='@O'} id='g'><path id='a' d='M 1 1 L 5 5 L 1 6' {|fill='black'|fill-opacity='1'|stroke='none'|stroke-width='@z'|visibility='visible'|stroke-dashoffset='0'}/></g></defs><use xlink:href='#{a|g}' {|fill='red'|fill-opacity='@O'} {|stroke='red' stroke-width='@p'|visibility='hidden'}/></svg>", opt: df },
    Case { name: "P08 default values of other properties", tpl: "<svg {|clip-rule='evenodd'|marker-mid='url(#m)'|shape-rendering='auto'|visibility='hidden'}><marker id='m' overflow='{visible|hidden}' refX='{0|1}' {|orient='0'|orient='auto'|markerUnits='strokeWidth'|markerWidth='3'}><rect width='2' height='2'/></marker><clipPath id='c'><path d='M 1 1 H 5 V 5 Z' {|clip-rule='nonzero'}/></clipPath><g {|clip-path='url(#c)'|opacity='1'}><path d='M 1 1 L 5 5 L 1 6' {|clip-path='none'|opacity='1'|opacity='@O'|mask='none'|filter='none'} {|marker-mid='none'|marker-start='none'|visibility='visible'|shape-rendering='auto'|display='inline'}/></g></svg>", opt: df },
    Case { name: "P08 default geometry", tpl: "<svg x='@z' {|width='100%' height='100%'|width='100' height='100%'} {|overflow='visible'|overflow='hidden'}><rect x='@j' {|y='0'|y='0%'} width='@p' height='3' {|rx='0'|ry='0'|rx='@n'}/><circle cx='@j' {|cy='0'} r='2'/><line x1='@j' {|y1='0'} x2='@z' y2='4' stroke='red'/><ellipse cy='@j' rx='2' ry='3'/><svg x='@z' {|width='100%' height='100%'} {|overflow='visible'|overflow='hidden'|overflow='auto'|overflow='scroll'}><rect width='3' height='3'/></svg><image x='@z' width='3' height='4' {|overflow='visible'|overflow='hidden'} xlink:href='data:image/png;base64,AA'/><text x='{0|@j|0 1}' {|y='0'} {|overflow='visible'}>a<tspan {|x='0'|dx='0'}>b</tspan></text></svg>", opt: df },
    Case { name: "P08 default values of definitions", tpl: "<svg><mask id='m' {|x='-10%'|x='0'|y='@z'} {|width='120%'|height='100%'} {|maskUnits='objectBoundingBox'|maskUnits='userSpaceOnUse'} {|maskContentUnits='userSpaceOnUse'|maskContentUnits='objectBoundingBox'}><rect width='2' height='2'/></mask><clipPath id='c' {|clipPathUnits='userSpaceOnUse'|clipPathUnits='objectBoundingBox'}><rect width='2' height='2'/></clipPath><g clip-path='url(#c)'><path d='M 1 1 L 5 5 L 1 6' mask='url(#m)'/></g></svg>", opt: df },
    Case { name: "P08 default values of filters", tpl: "<svg {|color-interpolation-filters='sRGB'}><filter id='h' {|x='0'} {|filterUnits='userSpaceOnUse'|filterUnits='objectBoundingBox'} {|width='100%'} {|primitiveUnits='objectBoundingBox'}/><filter id='f' {|xlink:href='#h'} {|x='-10%'} {|filterUnits='objectBoundingBox'} {|width='120%'} {|primitiveUnits='userSpaceOnUse'}><feFlood {|x='0'|x='@z'} {|y='0'} {|flood-color='black'|flood-opacity='1'} {|color-interpolation-filters='linearRGB'|color-interpolation-filters='auto'}/><feGaussianBlur stdDeviation='{@z|0 0|0 1}'/></filter><path d='M 1 1 L 5 5 L 1 6' filter='url(#f)'/></svg>", opt: df },
    Case { name: "P08 default values of components and markers", tpl: "<svg><filter id='f'><feComponentTransfer><feFuncR type='{linear|gamma|table}' {|slope='1'|slope='0'|slope='2'} {|intercept='0'|amplitude='1'} {|exponent='1'|offset='0'}/></feComponentTransfer><feMerge {|x='0'}><feMergeNode in='a'/></feMerge><fe{PointLight|Offset} {|x='0'|dx='0'}/><feImage {|x='0'|y='0%'} width='@p'/></filter><marker id='m' {|refX='0'|refX='1'} {|refY='0'|markerUnits='strokeWidth'} {|markerWidth='3'|orient='0'} {|overflow='hidden'|overflow='visible'}><rect width='2' height='2'/></marker><path d='M 1 1 L 5 5 L 1 6' stroke='red' filter='url(#f)' marker-mid='url(#m)'/></svg>", opt: df },
    Case { name: "P08 default values of fonts", tpl: "<svg><font id='F' {|horiz-adv-x='0'} {|horiz-origin-x='0'}><font-face font-family='F' {|units-per-em='1000'|units-per-em='2048'} {|slope='0'|slope='1'} {|font-weight='normal'|font-weight='bold'|font-weight='400'} {|font-style='normal'|font-style='italic'} {|font-variant='normal'} {|font-stretch='normal'|font-size='12'}/><missing-glyph {|d='M 0 0 H 5'}/><glyph unicode='a' {|d='M 0 0 H 5'} {|horiz-adv-x='0'}/></font><text font-family='F'>a</text></svg>", opt: |o| { df(o); if sym::flag("all") { all(o) } } },
    Case { name: "P08 default values of patterns", tpl: "<svg><pattern id='q' {|x='@j'} {|patternUnits='userSpaceOnUse'|patternUnits='objectBoundingBox'} {|patternContentUnits='objectBoundingBox'|width='0'|width='@n'} height='4'><rect width='2' height='2' {|fill='black'}/></pattern><pattern id='p' {|xlink:href='#q'} {|x='@z'} {|patternUnits='objectBoundingBox'} {|patternContentUnits='userSpaceOnUse'|width='@z'} {|overflow='visible'|overflow='hidden'} {|patternTransform='scale(1)'}/><path d='M 1 1 L 5 5 L 1 6' fill='url(#p)'/></svg>", opt: df },
    Case { name: "P08 needless fill", tpl: "<svg><g {|fill='red'|fill-opacity='0.5'|fill-rule='evenodd'}><path id='a' d='M 1 1 L 5 5 L 1 6' {|fill='none'|fill='lime'} {|fill-opacity='@O'} {|fill-rule='evenodd'}/><g id='e' {|fill='none'|fill-opacity='@O'}/><text id='t' {|fill='none'|fill-opacity='@O'|fill-rule='evenodd'}>{|a}</text></g><use xlink:href='#{a|t}' {|fill='none'|fill='blue'} {|fill-opacity='@O'|fill-rule='evenodd'}/></svg>", opt: nd },
    Case { name: "P08 needless stroke", tpl: "<svg {|stroke='red'|stroke='none'|stroke-width='@n'}><g {|stroke='blue'|stroke='none'|stroke-opacity='@O'}><path d='M 1 1 L 5 5 L 1 6' {|stroke='none'|stroke='lime'} {|stroke-width='@n'|stroke-width='0%'} {|stroke-opacity='@O'|stroke-linecap='round'|stroke-dasharray='2' stroke-dashoffset='1'|stroke-linejoin='round'|stroke-miterlimit='2'}/></g></svg>", opt: nd },
    Case { name: "P08 needless stroke with markers", tpl: "<svg><marker id='m'><rect width='2' height='2' stroke='{red|none}'/></marker><g {|marker-mid='url(#m)'|stroke-width='@n'} {|stroke='red'|stroke-opacity='0'}><path d='M 1 1 L 5 5 L 1 6' {|marker-start='url(#m)'|marker-mid='none'} {|stroke='none'|stroke='lime'} {|stroke-width='@n'} {|stroke-opacity='@O'}/></g></svg>", opt: nd },
    Case { name: "P08 needless stroke of used elements", tpl: "<svg><defs {|stroke='red'}><g id='g' {|stroke='none'|stroke-width='@z'}><path id='a' d='M 1 1 L 5 5 L 1 6' {|stroke='none'|stroke='lime'} {|stroke-width='@z'|stroke-opacity='@O'}/></g></defs><g {|stroke='blue'}><use xlink:href='#{a|g}' {|stroke='none'|stroke='red'} {|stroke-width='@n'|stroke-opacity='@O'|stroke-linecap='round'}/></g></svg>", opt: nd },
    Case { name: "P08 needless attributes of clip paths", tpl: "<svg {|fill='red'|clip-rule='evenodd'}><clipPath id='c'>{<path id='a' d='M 1 1 L 5 5 L 1 6' {|fill='blue'} {|opacity='@O'} {|clip-rule='evenodd'|fill-rule='evenodd'|stroke='red'}/>|<g {|fill='red'|opacity='0.5'} id='g'><rect id='r' width='3' height='3'/></g>|<text {|fill='red'}><tspan id='r' {|fill='blue'}>a</tspan></text>|<use xlink:href='#q' {|fill='blue'}/>}<circle r='4'/></clipPath><path id='q' d='M 1 1 L 5 5 L 2 6' clip-path='url(#c)'/>{|<use xlink:href='#a'/>|<use xlink:href='#r'/>|<use xlink:href='#g'/>}</svg>", opt: nd },
    Case { name: "P08 needless attributes of shapes", tpl: "<svg {|color='red'} {|overflow='hidden'}><{1:rect|circle|ellipse|line|polygon|polyline} id='a' {1:x='@j' width='@p' height='3'|cx='@j' r='@p'|cx='@j' rx='@p' ry='2'|x2='@p' y1='@j'|points='1 1 @j 5 5 1'|points='1 1 @j 5 5 1'} {|xlink:href='#b'|d='M 1 1 L 2 2'|offset='1'} {|transform='translate(@j 1)'|fill='currentColor' color='blue'|opacity='@O'|clip-path='url(#c)'|mask='url(#m)'|filter='url(#f)'|class='b'|visibility='hidden'|display='none'|stroke='red'|overflow='visible'} {|enable-background='new'}/><filter id='f'><feFlood flood-color='{red|currentColor}' color='lime'/></filter><clipPath id='c'><circle r='4'/></clipPath><mask id='m'><circle r='4' fill='white'/></mask><marker id='k' overflow='{visible|hidden}'><circle r='1'/></marker><path d='M 1 1 L 5 5' marker-end='url(#k)'/></svg>", opt: nd },
    Case { name: "P08 text attributes", tpl: "<svg {|font-size='@p'|font-family='a'}><g {|font-size='@p'|text-anchor='middle'|letter-spacing='@j'|baseline-shift='sub'}>{|<text {|font-weight='bold'|font-family='b'|text-decoration='underline'|dominant-baseline='middle'|direction='rtl'}>{|a|<tspan {|font-size='@p'|baseline-shift='super'}>b</tspan>}</text>|<g {|font-style='italic'}><text>{|a|<tspan/>}</text></g>|<switch font-size='5'><text>a</text></switch>}<path d='M 1 1 L 5 5 L 1 6' {|font-size='2' stroke='red' stroke-width='1em'|font-size='@p'}/></g></svg>", opt: tx },
    Case { name: "P08 text attributes of used and linked text", tpl: "<svg><defs {|font-size='3'}><{1:text|g} id='t' {|font-size='@p'}>{1:a|<text {|font-style='italic'}>b</text>}</{1:text|g}><rect id='r' width='2' height='2' stroke='red' stroke-width='2{em|}'/></defs><g {|font-size='@p'|font-family='a'} {|xml:space='preserve'}><use xlink:href='#{t|r}' {|font-size='@p'|text-anchor='end'}/></g></svg>", opt: tx },
    Case { name: "P08 text attributes and em", tpl: "<svg {|font-size='@p'}><g {|font-size='@p'} {|stroke-width='1em'}><{1:rect|svg|pattern|g} id='k' {1:width='2{em|ex|}' height='3'|width='2{em|}' height='3'|width='2{em|}' height='3'|stroke-width='1em'} {|font-size='@p'}>{1:|<rect width='2' height='2' stroke='red'/>|<rect width='2' height='2'/>|<rect width='2' height='2' stroke='red'/>}</{1:rect|svg|pattern|g}></g><circle r='3' fill='url(#k)' {|stroke='red' stroke-dasharray='1{em|} 2'}/></svg>", opt: tx },
    Case { name: "P08 white space of text", tpl: "<svg {|xml:space='preserve'|xml:space='default'}><g {|xml:space='preserve'|xml:space='default'}><text {|xml:space='preserve'|xml:space='default'}>{a| a|a  b|a\nb|\ta}{|<tspan {|xml:space='preserve'|xml:space='default'}>{b| b|b  c}</tspan>}</text></g></svg>", opt: tx },
    Case { name: "P08 tref and textPath", tpl: "<svg {|font-size='@p'}><defs {|font-size='2'}><text id='t' {|font-size='3'}>a</text><path id='p' d='M 1 1 H 5' {|font-size='1'}/></defs><text {|font-family='b'}>{<tref xlink:href='#t' {|font-size='4'}/>|<{2:tspan|a} {|font-size='5'}><tref xlink:href='#t' {|font-size='4'}/></{2:tspan|a}>|<textPath xlink:href='#p' {|font-size='4'}>c</textPath>|b<tspan {|font-weight='bold'}/>}</text></svg>", opt: tx },
    Case { name: "P08 gradient units", tpl: "<svg><linearGradient id='a' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'} x1='0.25'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><linearGradient id='b' xlink:href='#a' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'}/><radialGradient id='c' xlink:href='#{a|b}' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'} r='@u'/><linearGradient id='d' xlink:href='#{a|b|c}' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'}/><g fill='url(#b)' {|stroke='url(#a)'}><rect width='8' height='4' fill='url(#c)'/><rect width='8' height='3' fill='url(#d)'/></g></svg>", opt: ga },
    Case { name: "P08 unused coordinates", tpl: "<svg {|x='@z'} {|y='1'}>{|<svg x='@z' y='1'><circle r='1'/></svg>}<rect width='8' height='8' rx='{@n|10%|2em|3}' ry='{@n|10%|2em|3}' {|stroke='red'}/><rect width='8' height='8' {|rx='@n'|ry='@n'}/><radialGradient id='q' cx='@u' cy='@u' {|fx='@u'} {|fy='@u'}><stop offset='0'/><stop offset='1' stop-color='red'/></radialGradient><radialGradient id='p' {|cx='@u'} {|fx='@u'|fy='0.5'} {|xlink:href='#q'|gradientUnits='userSpaceOnUse'}/><circle r='5' fill='url(#q)' stroke='url(#p)'/></svg>", opt: uc },
    Case { name: "P08 all attribute removals together", tpl: "<svg {|fill='black'|stroke-width='1'} {|font-size='@p'}><defs><path id='a' d='M 1 1 L 5 5 L 1 6' {|fill='none'|fill-opacity='0'} {|stroke='none'|stroke-width='0'}/></defs><g {|fill='red'|fill='none'} {|stroke='red'}><rect x='@z' width='@p' height='3' {|rx='2' ry='2'} {|fill='black'|fill-opacity='@O'} {|stroke='none'|stroke-width='@z'}/><use xlink:href='#a' x='@z' {|fill='lime'}/>{|<text>a</text>}</g></svg>", opt: all },
];

pub fn run(c: &Case) { keeps_rendering(c, true) }
