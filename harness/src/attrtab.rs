//! C19: the attribute, value and default names of the Graphviz documentation
//! for every typed attribute (fixed tables, not read from the code under test).
use crate::attrs::is;
use crate::sym;
use dot_structures::Attribute;
use graphviz_rust::attributes::*;
use graphviz_rust::into_attr::IntoAttribute;

/// (owner constructor DOT-key, type of the argument)
macro_rules! table {
    ($n:ident $f:ident $t:ty; $($o:ident $c:ident $k:literal)*) => {
        pub fn $n(v: $t) -> (Attribute, &'static str) {
            let f: &[(fn($t) -> Attribute, &'static str)] = &[ $( ($o::$c, $k) ),* ];
            let (f, k) = f[sym::pick(f.len())];
            (f(v), k)
        }
    };
}
table! { bools c bool;
    GraphAttributes center "center"
    GraphAttributes compound "compound"
    GraphAttributes concentrate "concentrate"
    EdgeAttributes decorate "decorate"
    EdgeAttributes constraint "constraint"
    GraphAttributes diredgeconstraints "diredgeconstraints"
    NodeAttributes fixedsize "fixedsize"
    GraphAttributes forcelabels "forcelabels"
    EdgeAttributes headclip "headclip"
    NodeAttributes imagescale "imagescale"
    EdgeAttributes labelfloat "labelfloat"
    GraphAttributes landscape "landscape"
    GraphAttributes mosek "mosek"
    GraphAttributes newrank "newrank"
    GraphAttributes normalize "normalize"
    GraphAttributes notranslate "notranslate"
    GraphAttributes nojustify "nojustify"
    NodeAttributes nojustify "nojustify"
    SubgraphAttributes nojustify "nojustify"
    EdgeAttributes nojustify "nojustify"
    GraphAttributes overlap "overlap"
    GraphAttributes overlap_shrink "overlap_shrink"
    GraphAttributes pack "pack"
    NodeAttributes pin "pin"
    NodeAttributes regular "regular"
    GraphAttributes remincross "remincross"
    GraphAttributes splines "splines"
    EdgeAttributes tailclip "tailclip"
    GraphAttributes truecolor "truecolor"
}
table! { ints c i32;
    GraphAttributes dim "dim"
    GraphAttributes dimen "dimen"
    NodeAttributes gradientangle "gradientangle"
    GraphAttributes gradientangle "gradientangle"
    SubgraphAttributes gradientangle "gradientangle"
    GraphAttributes label_scheme "label_scheme"
    GraphAttributes levels "levels"
    GraphAttributes maxiter "maxiter"
    EdgeAttributes minlen "minlen"
    SubgraphAttributes peripheries "peripheries"
    NodeAttributes peripheries "peripheries"
    GraphAttributes rotate "rotate"
    NodeAttributes samplepoints "samplepoints"
    GraphAttributes searchsize "searchsize"
    NodeAttributes showboxes "showboxes"
    GraphAttributes showboxes "showboxes"
    EdgeAttributes showboxes "showboxes"
    NodeAttributes sides "sides"
    GraphAttributes sortv "sortv"
    SubgraphAttributes sortv "sortv"
    NodeAttributes sortv "sortv"
    EdgeAttributes weight "weight"
}
table! { floats c f32;
    NodeAttributes area "area"
    SubgraphAttributes area "area"
    EdgeAttributes arrowsize "arrowsize"
    GraphAttributes Damping "Damping"
    GraphAttributes defaultdist "defaultdist"
    NodeAttributes distortion "distortion"
    GraphAttributes dpi "dpi"
    GraphAttributes epsilon "epsilon"
    GraphAttributes esep "esep"
    NodeAttributes fontsize "fontsize"
    GraphAttributes fontsize "fontsize"
    EdgeAttributes fontsize "fontsize"
    SubgraphAttributes fontsize "fontsize"
    NodeAttributes height "height"
    GraphAttributes inputscale "inputscale"
    GraphAttributes K "K"
    SubgraphAttributes K "K"
    EdgeAttributes labelangle "labelangle"
    EdgeAttributes labeldistance "labeldistance"
    EdgeAttributes labelfontsize "labelfontsize"
    EdgeAttributes len "len"
    GraphAttributes levelsgap "levelsgap"
    GraphAttributes lheight "lheight"
    SubgraphAttributes lheight "lheight"
    GraphAttributes lwidth "lwidth"
    SubgraphAttributes lwidth "lwidth"
    GraphAttributes margin "margin"
    SubgraphAttributes margin "margin"
    NodeAttributes margin "margin"
    GraphAttributes mclimit "mclimit"
    GraphAttributes mindist "mindist"
    GraphAttributes nodesep "nodesep"
    GraphAttributes nslimit "nslimit"
    GraphAttributes nslimit1 "nslimit1"
    GraphAttributes orientation "orientation"
    NodeAttributes orientation "orientation"
    GraphAttributes overlap_scaling "overlap_scaling"
    GraphAttributes pad "pad"
    GraphAttributes page "page"
    SubgraphAttributes penwidth "penwidth"
    NodeAttributes penwidth "penwidth"
    EdgeAttributes penwidth "penwidth"
    GraphAttributes quantum "quantum"
    GraphAttributes ranksep "ranksep"
    GraphAttributes ratio "ratio"
    GraphAttributes repulsiveforce "repulsiveforce"
    GraphAttributes resolution "resolution"
    GraphAttributes rotation "rotation"
    GraphAttributes scale "scale"
    GraphAttributes sep "sep"
    NodeAttributes skew "skew"
    GraphAttributes size "size"
    GraphAttributes voro_margin "voro_margin"
    NodeAttributes width "width"
    NodeAttributes z "z"
}
table! { strings c String;
    GraphAttributes _background "_background"
    GraphAttributes bb "bb"
    GraphAttributes charset "charset"
    GraphAttributes class "class"
    NodeAttributes class "class"
    EdgeAttributes class "class"
    SubgraphAttributes class "class"
    GraphAttributes colorscheme "colorscheme"
    NodeAttributes colorscheme "colorscheme"
    EdgeAttributes colorscheme "colorscheme"
    SubgraphAttributes colorscheme "colorscheme"
    GraphAttributes comment "comment"
    NodeAttributes comment "comment"
    EdgeAttributes comment "comment"
    EdgeAttributes edgehref "edgehref"
    EdgeAttributes edgetarget "edgetarget"
    EdgeAttributes edgetooltip "edgetooltip"
    EdgeAttributes edgeURL "edgeURL"
    NodeAttributes fontname "fontname"
    GraphAttributes fontname "fontname"
    EdgeAttributes fontname "fontname"
    SubgraphAttributes fontname "fontname"
    NodeAttributes href "href"
    GraphAttributes href "href"
    EdgeAttributes href "href"
    SubgraphAttributes href "href"
    NodeAttributes id "id"
    GraphAttributes id "id"
    EdgeAttributes id "id"
    SubgraphAttributes id "id"
    GraphAttributes fontnames "fontnames"
    GraphAttributes fontpath "fontpath"
    NodeAttributes group "group"
    EdgeAttributes head_lp "head_lp"
    EdgeAttributes headhref "headhref"
    EdgeAttributes headlabel "headlabel"
    EdgeAttributes headtarget "headtarget"
    EdgeAttributes headtooltip "headtooltip"
    EdgeAttributes headURL "headURL"
    NodeAttributes image "image"
    NodeAttributes imagepos "imagepos"
    GraphAttributes imagepath "imagepath"
    NodeAttributes label "label"
    GraphAttributes label "label"
    EdgeAttributes label "label"
    SubgraphAttributes label "label"
    EdgeAttributes labelfontname "labelfontname"
    EdgeAttributes labelhref "labelhref"
    GraphAttributes labeljust "labeljust"
    SubgraphAttributes labeljust "labeljust"
    GraphAttributes labelloc "labelloc"
    SubgraphAttributes labelloc "labelloc"
    NodeAttributes labelloc "labelloc"
    EdgeAttributes labeltarget "labeltarget"
    EdgeAttributes labeltooltip "labeltooltip"
    EdgeAttributes labelURL "labelURL"
    EdgeAttributes layer "layer"
    NodeAttributes layer "layer"
    SubgraphAttributes layer "layer"
    GraphAttributes layerlistsep "layerlistsep"
    GraphAttributes layers "layers"
    GraphAttributes layerselect "layerselect"
    GraphAttributes layersep "layersep"
    GraphAttributes layout "layout"
    EdgeAttributes lhead "lhead"
    GraphAttributes lp "lp"
    SubgraphAttributes lp "lp"
    EdgeAttributes lp "lp"
    EdgeAttributes ltail "ltail"
    GraphAttributes mode "mode"
    GraphAttributes model "model"
    GraphAttributes ordering "ordering"
    NodeAttributes ordering "ordering"
    NodeAttributes pos "pos"
    EdgeAttributes pos "pos"
    NodeAttributes rects "rects"
    GraphAttributes root "root"
    NodeAttributes root "root"
    EdgeAttributes samehead "samehead"
    EdgeAttributes sametail "sametail"
    NodeAttributes shapefile "shapefile"
    GraphAttributes start "start"
    GraphAttributes style "style"
    EdgeAttributes style "style"
    NodeAttributes style "style"
    SubgraphAttributes style "style"
    GraphAttributes stylesheet "stylesheet"
    EdgeAttributes tail_lp "tail_lp"
    EdgeAttributes tailhref "tailhref"
    EdgeAttributes taillabel "taillabel"
    EdgeAttributes tailtarget "tailtarget"
    EdgeAttributes tailtooltip "tailtooltip"
    EdgeAttributes tailURL "tailURL"
    EdgeAttributes target "target"
    GraphAttributes target "target"
    NodeAttributes target "target"
    SubgraphAttributes target "target"
    EdgeAttributes tooltip "tooltip"
    GraphAttributes tooltip "tooltip"
    NodeAttributes tooltip "tooltip"
    SubgraphAttributes tooltip "tooltip"
    EdgeAttributes URL "URL"
    GraphAttributes URL "URL"
    NodeAttributes URL "URL"
    SubgraphAttributes URL "URL"
    NodeAttributes vertices "vertices"
    GraphAttributes viewport "viewport"
    GraphAttributes xdotversion "xdotversion"
    EdgeAttributes xlabel "xlabel"
    NodeAttributes xlabel "xlabel"
    EdgeAttributes xlp "xlp"
    NodeAttributes xlp "xlp"
}
table! { colors c color_name;
    GraphAttributes bgcolor "bgcolor"
    SubgraphAttributes bgcolor "bgcolor"
    EdgeAttributes color "color"
    SubgraphAttributes color "color"
    NodeAttributes color "color"
    EdgeAttributes fillcolor "fillcolor"
    SubgraphAttributes fillcolor "fillcolor"
    NodeAttributes fillcolor "fillcolor"
    GraphAttributes fontcolor "fontcolor"
    EdgeAttributes fontcolor "fontcolor"
    SubgraphAttributes fontcolor "fontcolor"
    NodeAttributes fontcolor "fontcolor"
    EdgeAttributes labelfontcolor "labelfontcolor"
    SubgraphAttributes pencolor "pencolor"
}

/// Every value of an enumeration with its Graphviz spelling, through every
/// constructor and through the value itself.
macro_rules! enumeration {
    ($n:ident $e:ident $k:literal; $($o:ident)*; $($v:ident $s:literal)*) => {
        pub fn $n() {
            let (a, s) = $n::any();
            is(&a, $k, s);
        }
        pub mod $n { use super::*; pub fn any() -> (Attribute, &'static str) {
            let vs: &[(fn() -> $e, &'static str)] = &[ $( (|| $e::$v, $s) ),* ];
            let (v, s) = vs[sym::pick(vs.len())];
            #[allow(unused_mut)]
            let mut fs: Vec<fn($e) -> Attribute> = vec![|v: $e| v.into_attr()];
            $( fs.push($o::$e); )*
            (fs[sym::pick(fs.len())](v()), s)
        } }
    };
}
enumeration! { e_arrowhead arrowhead "arrowhead"; EdgeAttributes;
    normal "normal" dot "dot" odot "odot" none "none" empty "empty" diamond "diamond" ediamond "ediamond" odiamond "odiamond" box_ "box" open "open" vee "vee" halfopen "halfopen" obox "obox" crow "crow" invempty "invempty" tee "tee" invodot "invodot" invdot "invdot" inv "inv"
}
enumeration! { e_arrowtail arrowtail "arrowtail"; EdgeAttributes;
    normal "normal" dot "dot" odot "odot" none "none" empty "empty" diamond "diamond" ediamond "ediamond" odiamond "odiamond" box_ "box" open "open" vee "vee" halfopen "halfopen" obox "obox" crow "crow" invempty "invempty" tee "tee" invodot "invodot" invdot "invdot" inv "inv"
}
enumeration! { e_clusterrank clusterrank "clusterrank"; GraphAttributes;
    local "local" global "global" none "none"
}
enumeration! { e_dir dir "dir"; EdgeAttributes;
    forward "forward" back "back" both "both" none "none"
}
enumeration! { e_outputorder outputorder "outputorder"; GraphAttributes;
    breadthfirst "breadthfirst" nodesfirst "nodesfirst" edgesfirst "edgesfirst"
}
enumeration! { e_packmode packmode "packmode"; GraphAttributes;
    node "node" clust "clust" graph "graph" array "array"
}
enumeration! { e_pagedir pagedir "pagedir"; GraphAttributes;
    BL "BL" BR "BR" TL "TL" TR "TR" RB "RB" RT "RT" LB "LB" LT "LT"
}
enumeration! { e_quadtree quadtree "quadtree"; GraphAttributes;
    normal "normal" fast "fast" none "none"
}
enumeration! { e_rank rank "rank"; SubgraphAttributes;
    same "same" min "min" source "source" max "max" sink "sink"
}
enumeration! { e_rankdir rankdir "rankdir"; GraphAttributes;
    TB "TB" BT "BT" LR "LR" RL "RL"
}
enumeration! { e_shape shape "shape"; NodeAttributes;
    box_ "box" polygon "polygon" ellipse "ellipse" oval "oval" circle "circle" point "point" egg "egg" triangle "triangle" plaintext "plaintext" plain "plain" diamond "diamond" trapezium "trapezium" parallelogram "parallelogram" house "house" pentagon "pentagon" hexagon "hexagon" septagon "septagon" octagon "octagon" doublecircle "doublecircle" doubleoctagon "doubleoctagon" tripleoctagon "tripleoctagon" invtriangle "invtriangle" invtrapezium "invtrapezium" invhouse "invhouse" Mdiamond "Mdiamond" Msquare "Msquare" Mcircle "Mcircle" rect "rect" rectangle "rectangle" square "square" star "star" none "none" underline "underline" cylinder "cylinder" note "note" tab "tab" folder "folder" box3d "box3d" component "component" promoter "promoter" cds "cds" terminator "terminator" utr "utr" primersite "primersite" restrictionsite "restrictionsite" fivepoverhang "fivepoverhang" threepoverhang "threepoverhang" noverhang "noverhang" assembly "assembly" signature "signature" insulator "insulator" ribosite "ribosite" rnastab "rnastab" proteasesite "proteasesite" proteinstab "proteinstab" rpromoter "rpromoter" rarrow "rarrow" larrow "larrow" lpromoter "lpromoter"
}
enumeration! { e_smoothing smoothing "smoothing"; GraphAttributes;
    none "none" avg_dist "avg_dist" graph_dist "graph_dist" power_dist "power_dist" rng "rng" spring "spring" triangle "triangle"
}
pub const COLORS: &[(fn() -> color_name, &str)] = &[
    (|| color_name::aliceblue, "aliceblue"),
    (|| color_name::antiquewhite, "antiquewhite"),
    (|| color_name::antiquewhite1, "antiquewhite1"),
    (|| color_name::antiquewhite2, "antiquewhite2"),
    (|| color_name::antiquewhite3, "antiquewhite3"),
    (|| color_name::antiquewhite4, "antiquewhite4"),
    (|| color_name::aqua, "aqua"),
    (|| color_name::aquamarine, "aquamarine"),
    (|| color_name::aquamarine1, "aquamarine1"),
    (|| color_name::aquamarine2, "aquamarine2"),
    (|| color_name::aquamarine3, "aquamarine3"),
    (|| color_name::aquamarine4, "aquamarine4"),
    (|| color_name::azure, "azure"),
    (|| color_name::azure1, "azure1"),
    (|| color_name::azure2, "azure2"),
    (|| color_name::azure3, "azure3"),
    (|| color_name::azure4, "azure4"),
    (|| color_name::beige, "beige"),
    (|| color_name::bisque, "bisque"),
    (|| color_name::bisque1, "bisque1"),
    (|| color_name::bisque2, "bisque2"),
    (|| color_name::bisque3, "bisque3"),
    (|| color_name::bisque4, "bisque4"),
    (|| color_name::black, "black"),
    (|| color_name::blanchedalmond, "blanchedalmond"),
    (|| color_name::blue, "blue"),
    (|| color_name::blue1, "blue1"),
    (|| color_name::blue2, "blue2"),
    (|| color_name::blue3, "blue3"),
    (|| color_name::blue4, "blue4"),
    (|| color_name::blueviolet, "blueviolet"),
    (|| color_name::brown, "brown"),
    (|| color_name::brown1, "brown1"),
    (|| color_name::brown2, "brown2"),
    (|| color_name::brown3, "brown3"),
    (|| color_name::brown4, "brown4"),
    (|| color_name::burlywood, "burlywood"),
    (|| color_name::burlywood1, "burlywood1"),
    (|| color_name::burlywood2, "burlywood2"),
    (|| color_name::burlywood3, "burlywood3"),
    (|| color_name::burlywood4, "burlywood4"),
    (|| color_name::cadetblue, "cadetblue"),
    (|| color_name::cadetblue1, "cadetblue1"),
    (|| color_name::cadetblue2, "cadetblue2"),
    (|| color_name::cadetblue3, "cadetblue3"),
    (|| color_name::cadetblue4, "cadetblue4"),
    (|| color_name::chartreuse, "chartreuse"),
    (|| color_name::chartreuse1, "chartreuse1"),
    (|| color_name::chartreuse2, "chartreuse2"),
    (|| color_name::chartreuse3, "chartreuse3"),
    (|| color_name::chartreuse4, "chartreuse4"),
    (|| color_name::chocolate, "chocolate"),
    (|| color_name::chocolate1, "chocolate1"),
    (|| color_name::chocolate2, "chocolate2"),
    (|| color_name::chocolate3, "chocolate3"),
    (|| color_name::chocolate4, "chocolate4"),
    (|| color_name::coral, "coral"),
    (|| color_name::coral1, "coral1"),
    (|| color_name::coral2, "coral2"),
    (|| color_name::coral3, "coral3"),
    (|| color_name::coral4, "coral4"),
    (|| color_name::cornflowerblue, "cornflowerblue"),
    (|| color_name::cornsilk, "cornsilk"),
    (|| color_name::cornsilk1, "cornsilk1"),
    (|| color_name::cornsilk2, "cornsilk2"),
    (|| color_name::cornsilk3, "cornsilk3"),
    (|| color_name::cornsilk4, "cornsilk4"),
    (|| color_name::crimson, "crimson"),
    (|| color_name::cyan, "cyan"),
    (|| color_name::cyan1, "cyan1"),
    (|| color_name::cyan2, "cyan2"),
    (|| color_name::cyan3, "cyan3"),
    (|| color_name::cyan4, "cyan4"),
    (|| color_name::darkblue, "darkblue"),
    (|| color_name::darkcyan, "darkcyan"),
    (|| color_name::darkgoldenrod, "darkgoldenrod"),
    (|| color_name::darkgoldenrod1, "darkgoldenrod1"),
    (|| color_name::darkgoldenrod2, "darkgoldenrod2"),
    (|| color_name::darkgoldenrod3, "darkgoldenrod3"),
    (|| color_name::darkgoldenrod4, "darkgoldenrod4"),
    (|| color_name::darkgray, "darkgray"),
    (|| color_name::darkgreen, "darkgreen"),
    (|| color_name::darkgrey, "darkgrey"),
    (|| color_name::darkkhaki, "darkkhaki"),
    (|| color_name::darkmagenta, "darkmagenta"),
    (|| color_name::darkolivegreen, "darkolivegreen"),
    (|| color_name::darkolivegreen1, "darkolivegreen1"),
    (|| color_name::darkolivegreen2, "darkolivegreen2"),
    (|| color_name::darkolivegreen3, "darkolivegreen3"),
    (|| color_name::darkolivegreen4, "darkolivegreen4"),
    (|| color_name::darkorange, "darkorange"),
    (|| color_name::darkorange1, "darkorange1"),
    (|| color_name::darkorange2, "darkorange2"),
    (|| color_name::darkorange3, "darkorange3"),
    (|| color_name::darkorange4, "darkorange4"),
    (|| color_name::darkorchid, "darkorchid"),
    (|| color_name::darkorchid1, "darkorchid1"),
    (|| color_name::darkorchid2, "darkorchid2"),
    (|| color_name::darkorchid3, "darkorchid3"),
    (|| color_name::darkorchid4, "darkorchid4"),
    (|| color_name::darkred, "darkred"),
    (|| color_name::darksalmon, "darksalmon"),
    (|| color_name::darkseagreen, "darkseagreen"),
    (|| color_name::darkseagreen1, "darkseagreen1"),
    (|| color_name::darkseagreen2, "darkseagreen2"),
    (|| color_name::darkseagreen3, "darkseagreen3"),
    (|| color_name::darkseagreen4, "darkseagreen4"),
    (|| color_name::darkslateblue, "darkslateblue"),
    (|| color_name::darkslategray, "darkslategray"),
    (|| color_name::darkslategray1, "darkslategray1"),
    (|| color_name::darkslategray2, "darkslategray2"),
    (|| color_name::darkslategray3, "darkslategray3"),
    (|| color_name::darkslategray4, "darkslategray4"),
    (|| color_name::darkslategrey, "darkslategrey"),
    (|| color_name::darkturquoise, "darkturquoise"),
    (|| color_name::darkviolet, "darkviolet"),
    (|| color_name::deeppink, "deeppink"),
    (|| color_name::deeppink1, "deeppink1"),
    (|| color_name::deeppink2, "deeppink2"),
    (|| color_name::deeppink3, "deeppink3"),
    (|| color_name::deeppink4, "deeppink4"),
    (|| color_name::deepskyblue, "deepskyblue"),
    (|| color_name::deepskyblue1, "deepskyblue1"),
    (|| color_name::deepskyblue2, "deepskyblue2"),
    (|| color_name::deepskyblue3, "deepskyblue3"),
    (|| color_name::deepskyblue4, "deepskyblue4"),
    (|| color_name::dimgray, "dimgray"),
    (|| color_name::dimgrey, "dimgrey"),
    (|| color_name::dodgerblue, "dodgerblue"),
    (|| color_name::dodgerblue1, "dodgerblue1"),
    (|| color_name::dodgerblue2, "dodgerblue2"),
    (|| color_name::dodgerblue3, "dodgerblue3"),
    (|| color_name::dodgerblue4, "dodgerblue4"),
    (|| color_name::firebrick, "firebrick"),
    (|| color_name::firebrick1, "firebrick1"),
    (|| color_name::firebrick2, "firebrick2"),
    (|| color_name::firebrick3, "firebrick3"),
    (|| color_name::firebrick4, "firebrick4"),
    (|| color_name::floralwhite, "floralwhite"),
    (|| color_name::forestgreen, "forestgreen"),
    (|| color_name::fuchsia, "fuchsia"),
    (|| color_name::gainsboro, "gainsboro"),
    (|| color_name::ghostwhite, "ghostwhite"),
    (|| color_name::gold, "gold"),
    (|| color_name::gold1, "gold1"),
    (|| color_name::gold2, "gold2"),
    (|| color_name::gold3, "gold3"),
    (|| color_name::gold4, "gold4"),
    (|| color_name::goldenrod, "goldenrod"),
    (|| color_name::goldenrod1, "goldenrod1"),
    (|| color_name::goldenrod2, "goldenrod2"),
    (|| color_name::goldenrod3, "goldenrod3"),
    (|| color_name::goldenrod4, "goldenrod4"),
    (|| color_name::gray, "gray"),
    (|| color_name::gray0, "gray0"),
    (|| color_name::gray1, "gray1"),
    (|| color_name::gray10, "gray10"),
    (|| color_name::gray100, "gray100"),
    (|| color_name::gray11, "gray11"),
    (|| color_name::gray12, "gray12"),
    (|| color_name::gray13, "gray13"),
    (|| color_name::gray14, "gray14"),
    (|| color_name::gray15, "gray15"),
    (|| color_name::gray16, "gray16"),
    (|| color_name::gray17, "gray17"),
    (|| color_name::gray18, "gray18"),
    (|| color_name::gray19, "gray19"),
    (|| color_name::gray2, "gray2"),
    (|| color_name::gray20, "gray20"),
    (|| color_name::gray21, "gray21"),
    (|| color_name::gray22, "gray22"),
    (|| color_name::gray23, "gray23"),
    (|| color_name::gray24, "gray24"),
    (|| color_name::gray25, "gray25"),
    (|| color_name::gray26, "gray26"),
    (|| color_name::gray27, "gray27"),
    (|| color_name::gray28, "gray28"),
    (|| color_name::gray29, "gray29"),
    (|| color_name::gray3, "gray3"),
    (|| color_name::gray30, "gray30"),
    (|| color_name::gray31, "gray31"),
    (|| color_name::gray32, "gray32"),
    (|| color_name::gray33, "gray33"),
    (|| color_name::gray34, "gray34"),
    (|| color_name::gray35, "gray35"),
    (|| color_name::gray36, "gray36"),
    (|| color_name::gray37, "gray37"),
    (|| color_name::gray38, "gray38"),
    (|| color_name::gray39, "gray39"),
    (|| color_name::gray4, "gray4"),
    (|| color_name::gray40, "gray40"),
    (|| color_name::gray41, "gray41"),
    (|| color_name::gray42, "gray42"),
    (|| color_name::gray43, "gray43"),
    (|| color_name::gray44, "gray44"),
    (|| color_name::gray45, "gray45"),
    (|| color_name::gray46, "gray46"),
    (|| color_name::gray47, "gray47"),
    (|| color_name::gray48, "gray48"),
    (|| color_name::gray49, "gray49"),
    (|| color_name::gray5, "gray5"),
    (|| color_name::gray50, "gray50"),
    (|| color_name::gray51, "gray51"),
    (|| color_name::gray52, "gray52"),
    (|| color_name::gray53, "gray53"),
    (|| color_name::gray54, "gray54"),
    (|| color_name::gray55, "gray55"),
    (|| color_name::gray56, "gray56"),
    (|| color_name::gray57, "gray57"),
    (|| color_name::gray58, "gray58"),
    (|| color_name::gray59, "gray59"),
    (|| color_name::gray6, "gray6"),
    (|| color_name::gray60, "gray60"),
    (|| color_name::gray61, "gray61"),
    (|| color_name::gray62, "gray62"),
    (|| color_name::gray63, "gray63"),
    (|| color_name::gray64, "gray64"),
    (|| color_name::gray65, "gray65"),
    (|| color_name::gray66, "gray66"),
    (|| color_name::gray67, "gray67"),
    (|| color_name::gray68, "gray68"),
    (|| color_name::gray69, "gray69"),
    (|| color_name::gray7, "gray7"),
    (|| color_name::gray70, "gray70"),
    (|| color_name::gray71, "gray71"),
    (|| color_name::gray72, "gray72"),
    (|| color_name::gray73, "gray73"),
    (|| color_name::gray74, "gray74"),
    (|| color_name::gray75, "gray75"),
    (|| color_name::gray76, "gray76"),
    (|| color_name::gray77, "gray77"),
    (|| color_name::gray78, "gray78"),
    (|| color_name::gray79, "gray79"),
    (|| color_name::gray8, "gray8"),
    (|| color_name::gray80, "gray80"),
    (|| color_name::gray81, "gray81"),
    (|| color_name::gray82, "gray82"),
    (|| color_name::gray83, "gray83"),
    (|| color_name::gray84, "gray84"),
    (|| color_name::gray85, "gray85"),
    (|| color_name::gray86, "gray86"),
    (|| color_name::gray87, "gray87"),
    (|| color_name::gray88, "gray88"),
    (|| color_name::gray89, "gray89"),
    (|| color_name::gray9, "gray9"),
    (|| color_name::gray90, "gray90"),
    (|| color_name::gray91, "gray91"),
    (|| color_name::gray92, "gray92"),
    (|| color_name::gray93, "gray93"),
    (|| color_name::gray94, "gray94"),
    (|| color_name::gray95, "gray95"),
    (|| color_name::gray96, "gray96"),
    (|| color_name::gray97, "gray97"),
    (|| color_name::gray98, "gray98"),
    (|| color_name::gray99, "gray99"),
    (|| color_name::green, "green"),
    (|| color_name::green1, "green1"),
    (|| color_name::green2, "green2"),
    (|| color_name::green3, "green3"),
    (|| color_name::green4, "green4"),
    (|| color_name::greenyellow, "greenyellow"),
    (|| color_name::grey, "grey"),
    (|| color_name::grey0, "grey0"),
    (|| color_name::grey1, "grey1"),
    (|| color_name::grey10, "grey10"),
    (|| color_name::grey100, "grey100"),
    (|| color_name::grey11, "grey11"),
    (|| color_name::grey12, "grey12"),
    (|| color_name::grey13, "grey13"),
    (|| color_name::grey14, "grey14"),
    (|| color_name::grey15, "grey15"),
    (|| color_name::grey16, "grey16"),
    (|| color_name::grey17, "grey17"),
    (|| color_name::grey18, "grey18"),
    (|| color_name::grey19, "grey19"),
    (|| color_name::grey2, "grey2"),
    (|| color_name::grey20, "grey20"),
    (|| color_name::grey21, "grey21"),
    (|| color_name::grey22, "grey22"),
    (|| color_name::grey23, "grey23"),
    (|| color_name::grey24, "grey24"),
    (|| color_name::grey25, "grey25"),
    (|| color_name::grey26, "grey26"),
    (|| color_name::grey27, "grey27"),
    (|| color_name::grey28, "grey28"),
    (|| color_name::grey29, "grey29"),
    (|| color_name::grey3, "grey3"),
    (|| color_name::grey30, "grey30"),
    (|| color_name::grey31, "grey31"),
    (|| color_name::grey32, "grey32"),
    (|| color_name::grey33, "grey33"),
    (|| color_name::grey34, "grey34"),
    (|| color_name::grey35, "grey35"),
    (|| color_name::grey36, "grey36"),
    (|| color_name::grey37, "grey37"),
    (|| color_name::grey38, "grey38"),
    (|| color_name::grey39, "grey39"),
    (|| color_name::grey4, "grey4"),
    (|| color_name::grey40, "grey40"),
    (|| color_name::grey41, "grey41"),
    (|| color_name::grey42, "grey42"),
    (|| color_name::grey43, "grey43"),
    (|| color_name::grey44, "grey44"),
    (|| color_name::grey45, "grey45"),
    (|| color_name::grey46, "grey46"),
    (|| color_name::grey47, "grey47"),
    (|| color_name::grey48, "grey48"),
    (|| color_name::grey49, "grey49"),
    (|| color_name::grey5, "grey5"),
    (|| color_name::grey50, "grey50"),
    (|| color_name::grey51, "grey51"),
    (|| color_name::grey52, "grey52"),
    (|| color_name::grey53, "grey53"),
    (|| color_name::grey54, "grey54"),
    (|| color_name::grey55, "grey55"),
    (|| color_name::grey56, "grey56"),
    (|| color_name::grey57, "grey57"),
    (|| color_name::grey58, "grey58"),
    (|| color_name::grey59, "grey59"),
    (|| color_name::grey6, "grey6"),
    (|| color_name::grey60, "grey60"),
    (|| color_name::grey61, "grey61"),
    (|| color_name::grey62, "grey62"),
    (|| color_name::grey63, "grey63"),
    (|| color_name::grey64, "grey64"),
    (|| color_name::grey65, "grey65"),
    (|| color_name::grey66, "grey66"),
    (|| color_name::grey67, "grey67"),
    (|| color_name::grey68, "grey68"),
    (|| color_name::grey69, "grey69"),
    (|| color_name::grey7, "grey7"),
    (|| color_name::grey70, "grey70"),
    (|| color_name::grey71, "grey71"),
    (|| color_name::grey72, "grey72"),
    (|| color_name::grey73, "grey73"),
    (|| color_name::grey74, "grey74"),
    (|| color_name::grey75, "grey75"),
    (|| color_name::grey76, "grey76"),
    (|| color_name::grey77, "grey77"),
    (|| color_name::grey78, "grey78"),
    (|| color_name::grey79, "grey79"),
    (|| color_name::grey8, "grey8"),
    (|| color_name::grey80, "grey80"),
    (|| color_name::grey81, "grey81"),
    (|| color_name::grey82, "grey82"),
    (|| color_name::grey83, "grey83"),
    (|| color_name::grey84, "grey84"),
    (|| color_name::grey85, "grey85"),
    (|| color_name::grey86, "grey86"),
    (|| color_name::grey87, "grey87"),
    (|| color_name::grey88, "grey88"),
    (|| color_name::grey89, "grey89"),
    (|| color_name::grey9, "grey9"),
    (|| color_name::grey90, "grey90"),
    (|| color_name::grey91, "grey91"),
    (|| color_name::grey92, "grey92"),
    (|| color_name::grey93, "grey93"),
    (|| color_name::grey94, "grey94"),
    (|| color_name::grey95, "grey95"),
    (|| color_name::grey96, "grey96"),
    (|| color_name::grey97, "grey97"),
    (|| color_name::grey98, "grey98"),
    (|| color_name::grey99, "grey99"),
    (|| color_name::honeydew, "honeydew"),
    (|| color_name::honeydew1, "honeydew1"),
    (|| color_name::honeydew2, "honeydew2"),
    (|| color_name::honeydew3, "honeydew3"),
    (|| color_name::honeydew4, "honeydew4"),
    (|| color_name::hotpink, "hotpink"),
    (|| color_name::hotpink1, "hotpink1"),
    (|| color_name::hotpink2, "hotpink2"),
    (|| color_name::hotpink3, "hotpink3"),
    (|| color_name::hotpink4, "hotpink4"),
    (|| color_name::indianred, "indianred"),
    (|| color_name::indianred1, "indianred1"),
    (|| color_name::indianred2, "indianred2"),
    (|| color_name::indianred3, "indianred3"),
    (|| color_name::indianred4, "indianred4"),
    (|| color_name::indigo, "indigo"),
    (|| color_name::invis, "invis"),
    (|| color_name::ivory, "ivory"),
    (|| color_name::ivory1, "ivory1"),
    (|| color_name::ivory2, "ivory2"),
    (|| color_name::ivory3, "ivory3"),
    (|| color_name::ivory4, "ivory4"),
    (|| color_name::khaki, "khaki"),
    (|| color_name::khaki1, "khaki1"),
    (|| color_name::khaki2, "khaki2"),
    (|| color_name::khaki3, "khaki3"),
    (|| color_name::khaki4, "khaki4"),
    (|| color_name::lavender, "lavender"),
    (|| color_name::lavenderblush, "lavenderblush"),
    (|| color_name::lavenderblush1, "lavenderblush1"),
    (|| color_name::lavenderblush2, "lavenderblush2"),
    (|| color_name::lavenderblush3, "lavenderblush3"),
    (|| color_name::lavenderblush4, "lavenderblush4"),
    (|| color_name::lawngreen, "lawngreen"),
    (|| color_name::lemonchiffon, "lemonchiffon"),
    (|| color_name::lemonchiffon1, "lemonchiffon1"),
    (|| color_name::lemonchiffon2, "lemonchiffon2"),
    (|| color_name::lemonchiffon3, "lemonchiffon3"),
    (|| color_name::lemonchiffon4, "lemonchiffon4"),
    (|| color_name::lightblue, "lightblue"),
    (|| color_name::lightblue1, "lightblue1"),
    (|| color_name::lightblue2, "lightblue2"),
    (|| color_name::lightblue3, "lightblue3"),
    (|| color_name::lightblue4, "lightblue4"),
    (|| color_name::lightcoral, "lightcoral"),
    (|| color_name::lightcyan, "lightcyan"),
    (|| color_name::lightcyan1, "lightcyan1"),
    (|| color_name::lightcyan2, "lightcyan2"),
    (|| color_name::lightcyan3, "lightcyan3"),
    (|| color_name::lightcyan4, "lightcyan4"),
    (|| color_name::lightgoldenrod, "lightgoldenrod"),
    (|| color_name::lightgoldenrod1, "lightgoldenrod1"),
    (|| color_name::lightgoldenrod2, "lightgoldenrod2"),
    (|| color_name::lightgoldenrod3, "lightgoldenrod3"),
    (|| color_name::lightgoldenrod4, "lightgoldenrod4"),
    (|| color_name::lightgoldenrodyellow, "lightgoldenrodyellow"),
    (|| color_name::lightgray, "lightgray"),
    (|| color_name::lightgreen, "lightgreen"),
    (|| color_name::lightgrey, "lightgrey"),
    (|| color_name::lightpink, "lightpink"),
    (|| color_name::lightpink1, "lightpink1"),
    (|| color_name::lightpink2, "lightpink2"),
    (|| color_name::lightpink3, "lightpink3"),
    (|| color_name::lightpink4, "lightpink4"),
    (|| color_name::lightsalmon, "lightsalmon"),
    (|| color_name::lightsalmon1, "lightsalmon1"),
    (|| color_name::lightsalmon2, "lightsalmon2"),
    (|| color_name::lightsalmon3, "lightsalmon3"),
    (|| color_name::lightsalmon4, "lightsalmon4"),
    (|| color_name::lightseagreen, "lightseagreen"),
    (|| color_name::lightskyblue, "lightskyblue"),
    (|| color_name::lightskyblue1, "lightskyblue1"),
    (|| color_name::lightskyblue2, "lightskyblue2"),
    (|| color_name::lightskyblue3, "lightskyblue3"),
    (|| color_name::lightskyblue4, "lightskyblue4"),
    (|| color_name::lightslateblue, "lightslateblue"),
    (|| color_name::lightslategray, "lightslategray"),
    (|| color_name::lightslategrey, "lightslategrey"),
    (|| color_name::lightsteelblue, "lightsteelblue"),
    (|| color_name::lightsteelblue1, "lightsteelblue1"),
    (|| color_name::lightsteelblue2, "lightsteelblue2"),
    (|| color_name::lightsteelblue3, "lightsteelblue3"),
    (|| color_name::lightsteelblue4, "lightsteelblue4"),
    (|| color_name::lightyellow, "lightyellow"),
    (|| color_name::lightyellow1, "lightyellow1"),
    (|| color_name::lightyellow2, "lightyellow2"),
    (|| color_name::lightyellow3, "lightyellow3"),
    (|| color_name::lightyellow4, "lightyellow4"),
    (|| color_name::lime, "lime"),
    (|| color_name::limegreen, "limegreen"),
    (|| color_name::linen, "linen"),
    (|| color_name::magenta, "magenta"),
    (|| color_name::magenta1, "magenta1"),
    (|| color_name::magenta2, "magenta2"),
    (|| color_name::magenta3, "magenta3"),
    (|| color_name::magenta4, "magenta4"),
    (|| color_name::maroon, "maroon"),
    (|| color_name::maroon1, "maroon1"),
    (|| color_name::maroon2, "maroon2"),
    (|| color_name::maroon3, "maroon3"),
    (|| color_name::maroon4, "maroon4"),
    (|| color_name::mediumaquamarine, "mediumaquamarine"),
    (|| color_name::mediumblue, "mediumblue"),
    (|| color_name::mediumorchid, "mediumorchid"),
    (|| color_name::mediumorchid1, "mediumorchid1"),
    (|| color_name::mediumorchid2, "mediumorchid2"),
    (|| color_name::mediumorchid3, "mediumorchid3"),
    (|| color_name::mediumorchid4, "mediumorchid4"),
    (|| color_name::mediumpurple, "mediumpurple"),
    (|| color_name::mediumpurple1, "mediumpurple1"),
    (|| color_name::mediumpurple2, "mediumpurple2"),
    (|| color_name::mediumpurple3, "mediumpurple3"),
    (|| color_name::mediumpurple4, "mediumpurple4"),
    (|| color_name::mediumseagreen, "mediumseagreen"),
    (|| color_name::mediumslateblue, "mediumslateblue"),
    (|| color_name::mediumspringgreen, "mediumspringgreen"),
    (|| color_name::mediumturquoise, "mediumturquoise"),
    (|| color_name::mediumvioletred, "mediumvioletred"),
    (|| color_name::midnightblue, "midnightblue"),
    (|| color_name::mintcream, "mintcream"),
    (|| color_name::mistyrose, "mistyrose"),
    (|| color_name::mistyrose1, "mistyrose1"),
    (|| color_name::mistyrose2, "mistyrose2"),
    (|| color_name::mistyrose3, "mistyrose3"),
    (|| color_name::mistyrose4, "mistyrose4"),
    (|| color_name::moccasin, "moccasin"),
    (|| color_name::navajowhite, "navajowhite"),
    (|| color_name::navajowhite1, "navajowhite1"),
    (|| color_name::navajowhite2, "navajowhite2"),
    (|| color_name::navajowhite3, "navajowhite3"),
    (|| color_name::navajowhite4, "navajowhite4"),
    (|| color_name::navy, "navy"),
    (|| color_name::navyblue, "navyblue"),
    (|| color_name::none, "none"),
    (|| color_name::oldlace, "oldlace"),
    (|| color_name::olive, "olive"),
    (|| color_name::olivedrab, "olivedrab"),
    (|| color_name::olivedrab1, "olivedrab1"),
    (|| color_name::olivedrab2, "olivedrab2"),
    (|| color_name::olivedrab3, "olivedrab3"),
    (|| color_name::olivedrab4, "olivedrab4"),
    (|| color_name::orange, "orange"),
    (|| color_name::orange1, "orange1"),
    (|| color_name::orange2, "orange2"),
    (|| color_name::orange3, "orange3"),
    (|| color_name::orange4, "orange4"),
    (|| color_name::orangered, "orangered"),
    (|| color_name::orangered1, "orangered1"),
    (|| color_name::orangered2, "orangered2"),
    (|| color_name::orangered3, "orangered3"),
    (|| color_name::orangered4, "orangered4"),
    (|| color_name::orchid, "orchid"),
    (|| color_name::orchid1, "orchid1"),
    (|| color_name::orchid2, "orchid2"),
    (|| color_name::orchid3, "orchid3"),
    (|| color_name::orchid4, "orchid4"),
    (|| color_name::palegoldenrod, "palegoldenrod"),
    (|| color_name::palegreen, "palegreen"),
    (|| color_name::palegreen1, "palegreen1"),
    (|| color_name::palegreen2, "palegreen2"),
    (|| color_name::palegreen3, "palegreen3"),
    (|| color_name::palegreen4, "palegreen4"),
    (|| color_name::paleturquoise, "paleturquoise"),
    (|| color_name::paleturquoise1, "paleturquoise1"),
    (|| color_name::paleturquoise2, "paleturquoise2"),
    (|| color_name::paleturquoise3, "paleturquoise3"),
    (|| color_name::paleturquoise4, "paleturquoise4"),
    (|| color_name::palevioletred, "palevioletred"),
    (|| color_name::palevioletred1, "palevioletred1"),
    (|| color_name::palevioletred2, "palevioletred2"),
    (|| color_name::palevioletred3, "palevioletred3"),
    (|| color_name::palevioletred4, "palevioletred4"),
    (|| color_name::papayawhip, "papayawhip"),
    (|| color_name::peachpuff, "peachpuff"),
    (|| color_name::peachpuff1, "peachpuff1"),
    (|| color_name::peachpuff2, "peachpuff2"),
    (|| color_name::peachpuff3, "peachpuff3"),
    (|| color_name::peachpuff4, "peachpuff4"),
    (|| color_name::peru, "peru"),
    (|| color_name::pink, "pink"),
    (|| color_name::pink1, "pink1"),
    (|| color_name::pink2, "pink2"),
    (|| color_name::pink3, "pink3"),
    (|| color_name::pink4, "pink4"),
    (|| color_name::plum, "plum"),
    (|| color_name::plum1, "plum1"),
    (|| color_name::plum2, "plum2"),
    (|| color_name::plum3, "plum3"),
    (|| color_name::plum4, "plum4"),
    (|| color_name::powderblue, "powderblue"),
    (|| color_name::purple, "purple"),
    (|| color_name::purple1, "purple1"),
    (|| color_name::purple2, "purple2"),
    (|| color_name::purple3, "purple3"),
    (|| color_name::purple4, "purple4"),
    (|| color_name::rebeccapurple, "rebeccapurple"),
    (|| color_name::red, "red"),
    (|| color_name::red1, "red1"),
    (|| color_name::red2, "red2"),
    (|| color_name::red3, "red3"),
    (|| color_name::red4, "red4"),
    (|| color_name::rosybrown, "rosybrown"),
    (|| color_name::rosybrown1, "rosybrown1"),
    (|| color_name::rosybrown2, "rosybrown2"),
    (|| color_name::rosybrown3, "rosybrown3"),
    (|| color_name::rosybrown4, "rosybrown4"),
    (|| color_name::royalblue, "royalblue"),
    (|| color_name::royalblue1, "royalblue1"),
    (|| color_name::royalblue2, "royalblue2"),
    (|| color_name::royalblue3, "royalblue3"),
    (|| color_name::royalblue4, "royalblue4"),
    (|| color_name::saddlebrown, "saddlebrown"),
    (|| color_name::salmon, "salmon"),
    (|| color_name::salmon1, "salmon1"),
    (|| color_name::salmon2, "salmon2"),
    (|| color_name::salmon3, "salmon3"),
    (|| color_name::salmon4, "salmon4"),
    (|| color_name::sandybrown, "sandybrown"),
    (|| color_name::seagreen, "seagreen"),
    (|| color_name::seagreen1, "seagreen1"),
    (|| color_name::seagreen2, "seagreen2"),
    (|| color_name::seagreen3, "seagreen3"),
    (|| color_name::seagreen4, "seagreen4"),
    (|| color_name::seashell, "seashell"),
    (|| color_name::seashell1, "seashell1"),
    (|| color_name::seashell2, "seashell2"),
    (|| color_name::seashell3, "seashell3"),
    (|| color_name::seashell4, "seashell4"),
    (|| color_name::sienna, "sienna"),
    (|| color_name::sienna1, "sienna1"),
    (|| color_name::sienna2, "sienna2"),
    (|| color_name::sienna3, "sienna3"),
    (|| color_name::sienna4, "sienna4"),
    (|| color_name::silver, "silver"),
    (|| color_name::skyblue, "skyblue"),
    (|| color_name::skyblue1, "skyblue1"),
    (|| color_name::skyblue2, "skyblue2"),
    (|| color_name::skyblue3, "skyblue3"),
    (|| color_name::skyblue4, "skyblue4"),
    (|| color_name::slateblue, "slateblue"),
    (|| color_name::slateblue1, "slateblue1"),
    (|| color_name::slateblue2, "slateblue2"),
    (|| color_name::slateblue3, "slateblue3"),
    (|| color_name::slateblue4, "slateblue4"),
    (|| color_name::slategray, "slategray"),
    (|| color_name::slategray1, "slategray1"),
    (|| color_name::slategray2, "slategray2"),
    (|| color_name::slategray3, "slategray3"),
    (|| color_name::slategray4, "slategray4"),
    (|| color_name::slategrey, "slategrey"),
    (|| color_name::snow, "snow"),
    (|| color_name::snow1, "snow1"),
    (|| color_name::snow2, "snow2"),
    (|| color_name::snow3, "snow3"),
    (|| color_name::snow4, "snow4"),
    (|| color_name::springgreen, "springgreen"),
    (|| color_name::springgreen1, "springgreen1"),
    (|| color_name::springgreen2, "springgreen2"),
    (|| color_name::springgreen3, "springgreen3"),
    (|| color_name::springgreen4, "springgreen4"),
    (|| color_name::steelblue, "steelblue"),
    (|| color_name::steelblue1, "steelblue1"),
    (|| color_name::steelblue2, "steelblue2"),
    (|| color_name::steelblue3, "steelblue3"),
    (|| color_name::steelblue4, "steelblue4"),
    (|| color_name::tan, "tan"),
    (|| color_name::tan1, "tan1"),
    (|| color_name::tan2, "tan2"),
    (|| color_name::tan3, "tan3"),
    (|| color_name::tan4, "tan4"),
    (|| color_name::teal, "teal"),
    (|| color_name::thistle, "thistle"),
    (|| color_name::thistle1, "thistle1"),
    (|| color_name::thistle2, "thistle2"),
    (|| color_name::thistle3, "thistle3"),
    (|| color_name::thistle4, "thistle4"),
    (|| color_name::tomato, "tomato"),
    (|| color_name::tomato1, "tomato1"),
    (|| color_name::tomato2, "tomato2"),
    (|| color_name::tomato3, "tomato3"),
    (|| color_name::tomato4, "tomato4"),
    (|| color_name::transparent, "transparent"),
    (|| color_name::turquoise, "turquoise"),
    (|| color_name::turquoise1, "turquoise1"),
    (|| color_name::turquoise2, "turquoise2"),
    (|| color_name::turquoise3, "turquoise3"),
    (|| color_name::turquoise4, "turquoise4"),
    (|| color_name::violet, "violet"),
    (|| color_name::violetred, "violetred"),
    (|| color_name::violetred1, "violetred1"),
    (|| color_name::violetred2, "violetred2"),
    (|| color_name::violetred3, "violetred3"),
    (|| color_name::violetred4, "violetred4"),
    (|| color_name::webgray, "webgray"),
    (|| color_name::webgreen, "webgreen"),
    (|| color_name::webgrey, "webgrey"),
    (|| color_name::webmaroon, "webmaroon"),
    (|| color_name::webpurple, "webpurple"),
    (|| color_name::wheat, "wheat"),
    (|| color_name::wheat1, "wheat1"),
    (|| color_name::wheat2, "wheat2"),
    (|| color_name::wheat3, "wheat3"),
    (|| color_name::wheat4, "wheat4"),
    (|| color_name::white, "white"),
    (|| color_name::whitesmoke, "whitesmoke"),
    (|| color_name::x11gray, "x11gray"),
    (|| color_name::x11green, "x11green"),
    (|| color_name::x11grey, "x11grey"),
    (|| color_name::x11maroon, "x11maroon"),
    (|| color_name::x11purple, "x11purple"),
    (|| color_name::yellow, "yellow"),
    (|| color_name::yellow1, "yellow1"),
    (|| color_name::yellow2, "yellow2"),
    (|| color_name::yellow3, "yellow3"),
    (|| color_name::yellow4, "yellow4"),
    (|| color_name::yellowgreen, "yellowgreen"),
];
pub fn defaults() -> Vec<(fn() -> Attribute, &'static str, &'static str)> {
    vec![
        (|| _background::default().into_attr(), "_background", "<none>"),
        (|| area::default().into_attr(), "area", "1"),
        (|| arrowhead::default().into_attr(), "arrowhead", "normal"),
        (|| arrowtail::default().into_attr(), "arrowtail", "normal"),
        (|| arrowsize::default().into_attr(), "arrowsize", "1"),
        (|| center::default().into_attr(), "center", "false"),
        (|| charset::default().into_attr(), "charset", "UTF-8"),
        (|| class::default().into_attr(), "class", ""),
        (|| colorscheme::default().into_attr(), "colorscheme", ""),
        (|| comment::default().into_attr(), "comment", ""),
        (|| compound::default().into_attr(), "compound", "false"),
        (|| concentrate::default().into_attr(), "concentrate", "false"),
        (|| Damping::default().into_attr(), "Damping", "0.99"),
        (|| decorate::default().into_attr(), "decorate", "false"),
        (|| constraint::default().into_attr(), "constraint", "true"),
        (|| dim::default().into_attr(), "dim", "2"),
        (|| dimen::default().into_attr(), "dimen", "2"),
        (|| clusterrank::default().into_attr(), "clusterrank", "local"),
        (|| dir::default().into_attr(), "dir", "forward"),
        (|| diredgeconstraints::default().into_attr(), "diredgeconstraints", "false"),
        (|| distortion::default().into_attr(), "distortion", "0"),
        (|| dpi::default().into_attr(), "dpi", "96"),
        (|| esep::default().into_attr(), "esep", "3"),
        (|| fixedsize::default().into_attr(), "fixedsize", "false"),
        (|| fontname::default().into_attr(), "fontname", "Times-Roman"),
        (|| href::default().into_attr(), "href", ""),
        (|| id::default().into_attr(), "id", ""),
        (|| fontsize::default().into_attr(), "fontsize", "14"),
        (|| fontnames::default().into_attr(), "fontnames", ""),
        (|| fontpath::default().into_attr(), "fontpath", "<system-dependent>"),
        (|| forcelabels::default().into_attr(), "forcelabels", "true"),
        (|| headclip::default().into_attr(), "headclip", "true"),
        (|| headhref::default().into_attr(), "headhref", ""),
        (|| headlabel::default().into_attr(), "headlabel", ""),
        (|| headtarget::default().into_attr(), "headtarget", ""),
        (|| headtooltip::default().into_attr(), "headtooltip", ""),
        (|| headURL::default().into_attr(), "headURL", ""),
        (|| height::default().into_attr(), "height", "0.5"),
        (|| image::default().into_attr(), "image", ""),
        (|| imagepos::default().into_attr(), "imagepos", "mc"),
        (|| imagescale::default().into_attr(), "imagescale", "false"),
        (|| imagepath::default().into_attr(), "imagepath", ""),
        (|| K::default().into_attr(), "K", "0.3"),
        (|| label::default().into_attr(), "label", ""),
        (|| label_scheme::default().into_attr(), "label_scheme", "0"),
        (|| labelangle::default().into_attr(), "labelangle", "-25"),
        (|| labeldistance::default().into_attr(), "labeldistance", "1"),
        (|| labelfloat::default().into_attr(), "labelfloat", "false"),
        (|| labelfontname::default().into_attr(), "labelfontname", "Times-Roman"),
        (|| labelfontsize::default().into_attr(), "labelfontsize", "14"),
        (|| labelhref::default().into_attr(), "labelhref", ""),
        (|| labeljust::default().into_attr(), "labeljust", "c"),
        (|| landscape::default().into_attr(), "landscape", "false"),
        (|| layerlistsep::default().into_attr(), "layerlistsep", ","),
        (|| layersep::default().into_attr(), "layersep", ":\t "),
        (|| levelsgap::default().into_attr(), "levelsgap", "0"),
        (|| mclimit::default().into_attr(), "mclimit", "1"),
        (|| mindist::default().into_attr(), "mindist", "1"),
        (|| minlen::default().into_attr(), "minlen", "1"),
        (|| mode::default().into_attr(), "mode", "major"),
        (|| model::default().into_attr(), "model", "shortpath"),
        (|| mosek::default().into_attr(), "mosek", "false"),
        (|| newrank::default().into_attr(), "newrank", "false"),
        (|| nodesep::default().into_attr(), "nodesep", "0.25"),
        (|| normalize::default().into_attr(), "normalize", "false"),
        (|| notranslate::default().into_attr(), "notranslate", "false"),
        (|| orientation::default().into_attr(), "orientation", "0"),
        (|| outputorder::default().into_attr(), "outputorder", "breadthfirst"),
        (|| nojustify::default().into_attr(), "nojustify", "false"),
        (|| overlap::default().into_attr(), "overlap", "true"),
        (|| overlap_shrink::default().into_attr(), "overlap_shrink", "true"),
        (|| pack::default().into_attr(), "pack", "false"),
        (|| overlap_scaling::default().into_attr(), "overlap_scaling", "-4"),
        (|| pad::default().into_attr(), "pad", "0.0555"),
        (|| packmode::default().into_attr(), "packmode", "node"),
        (|| pagedir::default().into_attr(), "pagedir", "BL"),
        (|| penwidth::default().into_attr(), "penwidth", "1"),
        (|| pin::default().into_attr(), "pin", "false"),
        (|| quadtree::default().into_attr(), "quadtree", "normal"),
        (|| quantum::default().into_attr(), "quantum", "0"),
        (|| rankdir::default().into_attr(), "rankdir", "TB"),
        (|| ranksep::default().into_attr(), "ranksep", "0.5"),
        (|| regular::default().into_attr(), "regular", "false"),
        (|| remincross::default().into_attr(), "remincross", "true"),
        (|| repulsiveforce::default().into_attr(), "repulsiveforce", "1"),
        (|| resolution::default().into_attr(), "resolution", "96"),
        (|| rotate::default().into_attr(), "rotate", "0"),
        (|| rotation::default().into_attr(), "rotation", "0"),
        (|| samplepoints::default().into_attr(), "samplepoints", "8"),
        (|| searchsize::default().into_attr(), "searchsize", "30"),
        (|| sep::default().into_attr(), "sep", "4"),
        (|| shape::default().into_attr(), "shape", "ellipse"),
        (|| showboxes::default().into_attr(), "showboxes", "0"),
        (|| sides::default().into_attr(), "sides", "4"),
        (|| skew::default().into_attr(), "skew", "0"),
        (|| smoothing::default().into_attr(), "smoothing", "none"),
        (|| sortv::default().into_attr(), "sortv", "0"),
        (|| tailclip::default().into_attr(), "tailclip", "true"),
        (|| voro_margin::default().into_attr(), "voro_margin", "0.05"),
        (|| weight::default().into_attr(), "weight", "1"),
        (|| width::default().into_attr(), "width", "0.75"),
        (|| z::default().into_attr(), "z", "0"),
        (|| color::default().into_attr(), "color", "black"),
        (|| labelfontcolor::default().into_attr(), "labelfontcolor", "black"),
        (|| pencolor::default().into_attr(), "pencolor", "black"),
    ]
}
pub fn enumerations() {
    let f: &[fn()] = &[e_arrowhead, e_arrowtail, e_clusterrank, e_dir, e_outputorder, e_packmode, e_pagedir, e_quadtree, e_rank, e_rankdir, e_shape, e_smoothing];
    f[sym::pick(f.len())]()
}
/// Any value of any enumeration through any constructor.
pub fn enumerated() -> Attribute {
    let f: &[fn() -> (Attribute, &'static str)] = &[e_arrowhead::any, e_arrowtail::any, e_clusterrank::any, e_dir::any, e_outputorder::any, e_packmode::any, e_pagedir::any, e_quadtree::any, e_rank::any, e_rankdir::any, e_shape::any, e_smoothing::any];
    f[sym::pick(f.len())]().0
}
