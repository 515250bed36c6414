use crate::common::*;

fn no(_: &mut CleaningOptions) {}
fn mg(o: &mut CleaningOptions) { o.merge_gradients = true; }
fn dl(o: &mut CleaningOptions) { o.remove_dupl_linear_gradients = true; o.remove_dupl_radial_gradients = true; }
fn db(o: &mut CleaningOptions) { o.remove_dupl_fe_gaussian_blur = true; }
fn rg(o: &mut CleaningOptions) { o.regroup_gradient_stops = true; }
fn iv(o: &mut CleaningOptions) { o.remove_invalid_stops = true; }
fn ga(o: &mut CleaningOptions) { o.remove_gradient_attributes = true; }
fn all(o: &mut CleaningOptions) {
    mg(o); dl(o); db(o); rg(o); iv(o); ga(o);
    o.remove_unused_defs = true; o.apply_transform_to_gradients = true;
}

macro_rules! st { () => { "<stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/>" } }
macro_rules! g1 { () => { "{1:{|x1='0.25'|y2='@o'|x2='@i'}|{|cx='0.25'|fx='@o'|r='@p'}} {|gradientUnits='userSpaceOnUse'|spreadMethod='reflect'|gradientTransform='scale(2)'}" } }
macro_rules! g2 { () => { "{2:{|x1='0.25'|y2='@o'|x2='@i'}|{|cx='0.25'|fx='@o'|r='@p'}} {|gradientUnits='userSpaceOnUse'|spreadMethod='reflect'|gradientTransform='scale(2)'}" } }
macro_rules! la { () => { "{|x1='0.25'|y2='@o'|gradientUnits='userSpaceOnUse' x2='@i'|spreadMethod='reflect'|gradientTransform='scale(2)'}" } }
macro_rules! ra { () => { "{|cx='0.25'|fx='@o'|cx='0.25' fx='@o'|gradientUnits='userSpaceOnUse' r='@p'|spreadMethod='reflect'|gradientTransform='scale(2)'}" } }

// every attribute that a gradient may have, once
macro_rules! one { () => { "{|x1='0.25'|y1='0.25'|x2='0.25'|y2='0.25'|gradientUnits='userSpaceOnUse'|spreadMethod='reflect'|gradientTransform='scale(2)'|class='x'}" } }
macro_rules! oner { () => { "{|cx='0.25'|cy='0.25'|r='0.25'|fx='0.25'|fy='0.25'|gradientUnits='userSpaceOnUse'|spreadMethod='reflect'|gradientTransform='scale(2)'|class='x'}" } }

pub static CASES: &[Case] = &[
    Case { name: "P06 inheritance through references", tpl: concat!("<svg><linearGradient id='a' {|xlink:href='#b'|xlink:href='#c'} ", la!(), ">{|", st!(), "}</linearGradient><linearGradient id='b' {|xlink:href='#c'} ", la!(), ">", st!(), "</linearGradient><radialGradient id='c' {|fy='0.25'|gradientUnits='userSpaceOnUse'}>{|<stop offset='0.5'/>}</radialGradient><rect width='8' height='4' fill='url(#{a|b|c})'/></svg>"), opt: no },
    Case { name: "P06 inheritance of radial gradients", tpl: concat!("<svg><radialGradient id='a' {|xlink:href='#b'|xlink:href='#c'} ", ra!(), ">{|", st!(), "}</radialGradient><radialGradient id='b' {|xlink:href='#c'} ", ra!(), ">", st!(), "</radialGradient><linearGradient id='c' {|x2='0.25'|gradientUnits='userSpaceOnUse'}>{|<stop offset='0.5'/>}</linearGradient><rect width='8' height='4' fill='url(#{a|b|c})'/></svg>"), opt: no },
    Case { name: "P06 merging linear gradients", tpl: concat!("<svg><{1:linearGradient|radialGradient} id='a' ", g1!(), ">{", st!(), "|}</{1:linearGradient|radialGradient}><linearGradient id='b' xlink:href='#a' ", la!(), ">{|<stop offset='@O'/>}</linearGradient>{|<linearGradient id='c' xlink:href='#b' {|x1='@o'|gradientUnits='objectBoundingBox'}/>|<linearGradient id='c' xlink:href='#a' {|x1='@o'}/>}<rect width='8' height='4' fill='url(#b)' {|stroke='url(#a)'|stroke='url(#c)'}/></svg>"), opt: mg },
    Case { name: "P06 merging radial gradients", tpl: concat!("<svg><{1:linearGradient|radialGradient} id='a' ", g1!(), ">{", st!(), "|}</{1:linearGradient|radialGradient}><radialGradient id='b' xlink:href='#a' ", ra!(), ">{|<stop offset='@O'/>}</radialGradient>{|<radialGradient id='c' xlink:href='#b' {|cx='@o'|gradientUnits='objectBoundingBox'}/>}<rect width='8' height='4' fill='url(#b)' {|stroke='url(#a)'|stroke='url(#c)'}/></svg>"), opt: mg },
    Case { name: "P06 merging with an applied transform", tpl: concat!("<svg><linearGradient id='a' gradientUnits='userSpaceOnUse' {|gradientTransform='scale(2)'} x1='@i' y1='1' {|x2='@i' y2='2'}>", st!(), "</linearGradient><linearGradient id='b' xlink:href='#a' {|gradientTransform='scale(@t)'|gradientTransform='translate(@k 1)'} {|x1='1' y1='2' x2='@i' y2='0'|gradientUnits='objectBoundingBox'}/>{|<linearGradient id='c' xlink:href='#b' {|x1='3'}/>}<path d='M 1 1 L 5 6 L 1 3' fill='url(#{b|a})' {|stroke='url(#c)'}/></svg>"), opt: |o| { mg(o); o.apply_transform_to_gradients = true; } },
    Case { name: "P06 equal linear gradients", tpl: concat!("<svg><linearGradient id='a' ", la!(), ">{|", st!(), "}</linearGradient><linearGradient id='b' ", la!(), " {|xlink:href='#c'}>{|", st!(), "|<stop offset='@O' stop-color='red'/><stop offset='1' stop-color='blue'/>}</linearGradient><linearGradient id='c' {|xlink:href='#a'|x2='0.5'}>{|", st!(), "}</linearGradient>{|<radialGradient id='d' xlink:href='#b'/>}<rect width='8' height='4' fill='url(#{a|b})' stroke='url(#{b|c|d})'/></svg>"), opt: dl },
    Case { name: "P06 equal radial gradients", tpl: concat!("<svg><radialGradient id='a' ", ra!(), ">", st!(), "</radialGradient><radialGradient id='b' ", ra!(), " {3:|xlink:href='#c'|xlink:href='#a'|fy='@o'}>{|", st!(), "}</radialGradient><radialGradient id='c' {3:{|xlink:href='#b' cx='0.5'|xlink:href='#b' r='0.25'}|{|xlink:href='#a'}|{|xlink:href='#b' cx='0.25'}|{|xlink:href='#b' cx='@o'|xlink:href='#a'}}>{|", st!(), "}</radialGradient><rect width='8' height='4' fill='url(#{a|b})' stroke='url(#{b|c})'/></svg>"), opt: dl },
    Case { name: "P06 equal stops", tpl: "<svg color='lime' stop-color='green'><linearGradient id='a'><stop offset='@O' {1:|stop-color='red'|stop-color='red'|stop-color='#000000'|stop-color='inherit'|stop-color='currentColor'} {2:|stop-opacity='@O'|stop-opacity='1'}/><stop offset='1' {|class='x'}/></linearGradient><linearGradient id='b' {|color='blue' stop-color='green'}><stop offset='@O' {1:stop-color='black'|stop-color='red'|stop-color='#ff0001'||stop-color='green'|stop-color='currentColor'} {2:stop-opacity='@O'|stop-opacity='@O'}/><stop offset='1'/>{|<stop offset='1'/>}</linearGradient><g fill='url(#{a|b})' color='lime'><rect width='8' height='4'/></g><circle r='2' stroke='url(#b)'/></svg>", opt: |o| { dl(o); rg(o); o.remove_gradient_attributes = true; } },
    Case { name: "P06 equal blurs", tpl: "<svg><filter id='a' {|x='@q'|width='@p'|filterUnits='userSpaceOnUse'|primitiveUnits='objectBoundingBox'|color-interpolation-filters='sRGB'}><feGaussianBlur stdDeviation='@p' {|x='1'|color-interpolation-filters='sRGB'|in='SourceAlpha'}/></filter><filter id='b' {|x='@q'|width='@p'|filterUnits='userSpaceOnUse'|primitiveUnits='objectBoundingBox'|color-interpolation-filters='sRGB'}><feGaussianBlur stdDeviation='@p' {|x='1'|color-interpolation-filters='sRGB'|in='SourceAlpha'|result='z'}/>{|<feOffset dx='2'/>}</filter><filter id='c' {|xlink:href='#b'}><feGaussianBlur stdDeviation='@p'/></filter><rect width='8' height='4' filter='url(#a)'/><g filter='url(#{b|c|a})'><rect width='4' height='4'/></g></svg>", opt: db },
    Case { name: "P06 regrouping stops", tpl: concat!("<svg>{|<path id='lg1' d='M 1 1 L 2 3'/>}<{1:linearGradient|radialGradient} id='a' ", g1!(), "><stop offset='@O'/><stop offset='1' stop-color='red'/></{1:linearGradient|radialGradient}><{2:linearGradient|radialGradient} id='b' ", g2!(), ">{|<stop offset='@O'/>}<stop offset='1' stop-color='red'/></{2:linearGradient|radialGradient}><{3:linearGradient|radialGradient} id='c' {|spreadMethod='reflect'|xlink:href='#a'|xlink:href='#b'}>{|<stop offset='1' stop-color='red'/>|<stop offset='0.5'/><stop offset='1' stop-color='red'/>}</{3:linearGradient|radialGradient}><rect width='8' height='4' fill='url(#{a|b})' stroke='url(#{b|c})'/></svg>"), opt: rg },
    Case { name: "P06 redundant stops", tpl: "<svg><linearGradient id='a'>{|<stop stop-color='red'/>}<stop offset='@O' stop-color='{red|blue}'/><stop offset='@O' stop-color='{red|blue}' {|stop-opacity='@O'}/><stop offset='@O' stop-color='{red|blue}'/>{|<stop offset='@O' stop-color='red'/>}</linearGradient>{|<radialGradient id='b' xlink:href='#a'/>}<rect width='8' height='4' fill='url(#{a|b})'/></svg>", opt: iv },
    Case { name: "P06 stop offsets", tpl: "<svg><linearGradient id='a'><stop offset='{@o|@p%|25%|@i}'/><stop offset='{@o|50%|@i}' stop-color='red'/><stop offset='{@o|50%}' stop-opacity='{0.5|2}'/></linearGradient><rect width='8' height='4' fill='url(#a)'/></svg>", opt: |o| { iv(o); } },
    Case { name: "P06 units of related gradients", tpl: concat!("<svg><{1:linearGradient|radialGradient} id='a' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'}>", st!(), "</{1:linearGradient|radialGradient}><linearGradient id='b' {xlink:href='#a'|} {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'}/><radialGradient id='c' xlink:href='#{a|b}' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'}/><linearGradient id='d' xlink:href='#{a|b|c}' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'}/>{|<linearGradient id='e' xlink:href='#a' {|gradientUnits='userSpaceOnUse'}/>}<rect width='8' height='4' fill='url(#{a|b})' stroke='url(#c)'/><rect width='8' height='4' fill='url(#d)' {|stroke='url(#e)'}/></svg>"), opt: ga },
    Case { name: "P06 units of a referenced gradient that is drawn", tpl: concat!("<svg><linearGradient id='a' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'} x2='@o'>", st!(), "</linearGradient>{<linearGradient id='b' xlink:href='#a' {|gradientUnits='userSpaceOnUse'|gradientUnits='objectBoundingBox'}/>|<pattern id='b' width='4' height='5' xlink:href='#a'/>|<use id='b' xlink:href='#a'/>}<g fill='url(#a)' {|stroke='url(#a)'}><rect width='8' height='4'/></g>{|<circle r='2' fill='url(#b)'/>}</svg>"), opt: ga },
    Case { name: "P06 all gradient options", tpl: concat!("<svg><linearGradient id='a' ", la!(), ">", st!(), "</linearGradient><{1:linearGradient|radialGradient} id='b' {|xlink:href='#a'} ", g1!(), ">{", st!(), "|<stop offset='@O' stop-color='red'/>|}</{1:linearGradient|radialGradient}><radialGradient id='c' {|xlink:href='#b'|xlink:href='#a'} {|cx='@o'|gradientUnits='userSpaceOnUse'}>{", st!(), "|}</radialGradient><rect width='8' height='4' fill='url(#b)' {|stroke='url(#c)'|stroke='url(#a)'}/></svg>"), opt: all },
    Case { name: "P06 color-interpolation", tpl: concat!("<svg {|color-interpolation='linearRGB'}><linearGradient id='a' {|color-interpolation='linearRGB'|color-interpolation='sRGB'}>", st!(), "</linearGradient><linearGradient id='b' {|color-interpolation='linearRGB'|color-interpolation='auto'} {|xlink:href='#a'}>{", st!(), "|}</linearGradient><g {|color-interpolation='sRGB'}><linearGradient id='c' {|xlink:href='#b'} {|color-interpolation='linearRGB'}>{|", st!(), "}</linearGradient></g><rect width='8' height='4' fill='url(#{a|b})' stroke='url(#{b|c})'/></svg>"), opt: all },
    Case { name: "P06 linear gradients that differ in one attribute", tpl: concat!("<svg><linearGradient id='a' ", one!(), ">", st!(), "</linearGradient><linearGradient id='b' {{|xlink:href='#a'} ", one!(), "|xlink:href='#a' x1='0.25' y1='0.25' x2='0.25' y2='0.25' spreadMethod='repeat'}>{", st!(), "|}</linearGradient><rect width='8' height='4' {fill='url(#a)'|} stroke='url(#b)'/></svg>"), opt: all },
    Case { name: "P06 radial gradients that differ in one attribute", tpl: concat!("<svg><radialGradient id='a' ", oner!(), ">", st!(), "</radialGradient><radialGradient id='b' {{|xlink:href='#a'} ", oner!(), "|xlink:href='#a' cx='0.25' cy='0.25' fx='0.3' fy='0.3' r='0.25' spreadMethod='repeat'}>{", st!(), "|}</radialGradient><rect width='8' height='4' {fill='url(#a)'|} stroke='url(#b)'/></svg>"), opt: all },
];

pub fn run(c: &Case) { keeps_rendering(c, false) }
