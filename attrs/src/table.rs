// Written by gen_table.py from spec.txt.
use super::*;
pub static HELPERS: &[Helper] = &[
    Helper { name: "_background", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::_background) },
    Helper { name: "area", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::area) },
    Helper { name: "area", owner: "SubgraphAttributes", make: Make::F32(a::SubgraphAttributes::area) },
    Helper { name: "arrowhead", owner: "EdgeAttributes", make: Make::Values(&[("normal", || a::EdgeAttributes::arrowhead(a::arrowhead::normal)), ("dot", || a::EdgeAttributes::arrowhead(a::arrowhead::dot)), ("odot", || a::EdgeAttributes::arrowhead(a::arrowhead::odot)), ("none", || a::EdgeAttributes::arrowhead(a::arrowhead::none)), ("empty", || a::EdgeAttributes::arrowhead(a::arrowhead::empty)), ("diamond", || a::EdgeAttributes::arrowhead(a::arrowhead::diamond)), ("ediamond", || a::EdgeAttributes::arrowhead(a::arrowhead::ediamond)), ("odiamond", || a::EdgeAttributes::arrowhead(a::arrowhead::odiamond)), ("box", || a::EdgeAttributes::arrowhead(a::arrowhead::box_)), ("open", || a::EdgeAttributes::arrowhead(a::arrowhead::open)), ("vee", || a::EdgeAttributes::arrowhead(a::arrowhead::vee)), ("halfopen", || a::EdgeAttributes::arrowhead(a::arrowhead::halfopen)), ("obox", || a::EdgeAttributes::arrowhead(a::arrowhead::obox)), ("crow", || a::EdgeAttributes::arrowhead(a::arrowhead::crow)), ("invempty", || a::EdgeAttributes::arrowhead(a::arrowhead::invempty)), ("tee", || a::EdgeAttributes::arrowhead(a::arrowhead::tee)), ("invodot", || a::EdgeAttributes::arrowhead(a::arrowhead::invodot)), ("invdot", || a::EdgeAttributes::arrowhead(a::arrowhead::invdot)), ("inv", || a::EdgeAttributes::arrowhead(a::arrowhead::inv))]) },
    Helper { name: "arrowtail", owner: "EdgeAttributes", make: Make::Values(&[("normal", || a::EdgeAttributes::arrowtail(a::arrowtail::normal)), ("dot", || a::EdgeAttributes::arrowtail(a::arrowtail::dot)), ("odot", || a::EdgeAttributes::arrowtail(a::arrowtail::odot)), ("none", || a::EdgeAttributes::arrowtail(a::arrowtail::none)), ("empty", || a::EdgeAttributes::arrowtail(a::arrowtail::empty)), ("diamond", || a::EdgeAttributes::arrowtail(a::arrowtail::diamond)), ("ediamond", || a::EdgeAttributes::arrowtail(a::arrowtail::ediamond)), ("odiamond", || a::EdgeAttributes::arrowtail(a::arrowtail::odiamond)), ("box", || a::EdgeAttributes::arrowtail(a::arrowtail::box_)), ("open", || a::EdgeAttributes::arrowtail(a::arrowtail::open)), ("vee", || a::EdgeAttributes::arrowtail(a::arrowtail::vee)), ("halfopen", || a::EdgeAttributes::arrowtail(a::arrowtail::halfopen)), ("obox", || a::EdgeAttributes::arrowtail(a::arrowtail::obox)), ("crow", || a::EdgeAttributes::arrowtail(a::arrowtail::crow)), ("invempty", || a::EdgeAttributes::arrowtail(a::arrowtail::invempty)), ("tee", || a::EdgeAttributes::arrowtail(a::arrowtail::tee)), ("invodot", || a::EdgeAttributes::arrowtail(a::arrowtail::invodot)), ("invdot", || a::EdgeAttributes::arrowtail(a::arrowtail::invdot)), ("inv", || a::EdgeAttributes::arrowtail(a::arrowtail::inv))]) },
    Helper { name: "arrowsize", owner: "EdgeAttributes", make: Make::F32(a::EdgeAttributes::arrowsize) },
    Helper { name: "bb", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::bb) },
    Helper { name: "center", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::center) },
    Helper { name: "charset", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::charset) },
    Helper { name: "class", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::class) },
    Helper { name: "class", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::class) },
    Helper { name: "class", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::class) },
    Helper { name: "class", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::class) },
    Helper { name: "colorscheme", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::colorscheme) },
    Helper { name: "colorscheme", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::colorscheme) },
    Helper { name: "colorscheme", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::colorscheme) },
    Helper { name: "colorscheme", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::colorscheme) },
    Helper { name: "comment", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::comment) },
    Helper { name: "comment", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::comment) },
    Helper { name: "comment", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::comment) },
    Helper { name: "compound", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::compound) },
    Helper { name: "concentrate", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::concentrate) },
    Helper { name: "Damping", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::Damping) },
    Helper { name: "decorate", owner: "EdgeAttributes", make: Make::Bool(a::EdgeAttributes::decorate) },
    Helper { name: "defaultdist", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::defaultdist) },
    Helper { name: "constraint", owner: "EdgeAttributes", make: Make::Bool(a::EdgeAttributes::constraint) },
    Helper { name: "dim", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::dim) },
    Helper { name: "dimen", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::dimen) },
    Helper { name: "clusterrank", owner: "GraphAttributes", make: Make::Values(&[("local", || a::GraphAttributes::clusterrank(a::clusterrank::local)), ("global", || a::GraphAttributes::clusterrank(a::clusterrank::global)), ("none", || a::GraphAttributes::clusterrank(a::clusterrank::none))]) },
    Helper { name: "dir", owner: "EdgeAttributes", make: Make::Values(&[("forward", || a::EdgeAttributes::dir(a::dir::forward)), ("back", || a::EdgeAttributes::dir(a::dir::back)), ("both", || a::EdgeAttributes::dir(a::dir::both)), ("none", || a::EdgeAttributes::dir(a::dir::none))]) },
    Helper { name: "diredgeconstraints", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::diredgeconstraints) },
    Helper { name: "distortion", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::distortion) },
    Helper { name: "dpi", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::dpi) },
    Helper { name: "dedgehrefpi", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::dedgehrefpi) },
    Helper { name: "edgetarget", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::edgetarget) },
    Helper { name: "edgetooltip", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::edgetooltip) },
    Helper { name: "edgeURL", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::edgeURL) },
    Helper { name: "epsilon", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::epsilon) },
    Helper { name: "esep", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::esep) },
    Helper { name: "fixedsize", owner: "NodeAttributes", make: Make::Bool(a::NodeAttributes::fixedsize) },
    Helper { name: "fontname", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::fontname) },
    Helper { name: "fontname", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::fontname) },
    Helper { name: "fontname", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::fontname) },
    Helper { name: "fontname", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::fontname) },
    Helper { name: "href", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::href) },
    Helper { name: "href", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::href) },
    Helper { name: "href", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::href) },
    Helper { name: "href", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::href) },
    Helper { name: "id", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::id) },
    Helper { name: "id", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::id) },
    Helper { name: "id", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::id) },
    Helper { name: "id", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::id) },
    Helper { name: "fontsize", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::fontsize) },
    Helper { name: "fontsize", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::fontsize) },
    Helper { name: "fontsize", owner: "EdgeAttributes", make: Make::F32(a::EdgeAttributes::fontsize) },
    Helper { name: "fontsize", owner: "SubgraphAttributes", make: Make::F32(a::SubgraphAttributes::fontsize) },
    Helper { name: "fontnames", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::fontnames) },
    Helper { name: "fontpath", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::fontpath) },
    Helper { name: "forcelabels", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::forcelabels) },
    Helper { name: "gradientangle", owner: "NodeAttributes", make: Make::I32(a::NodeAttributes::gradientangle) },
    Helper { name: "gradientangle", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::gradientangle) },
    Helper { name: "gradientangle", owner: "SubgraphAttributes", make: Make::I32(a::SubgraphAttributes::gradientangle) },
    Helper { name: "group", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::group) },
    Helper { name: "head_lp", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::head_lp) },
    Helper { name: "headclip", owner: "EdgeAttributes", make: Make::Bool(a::EdgeAttributes::headclip) },
    Helper { name: "headhref", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::headhref) },
    Helper { name: "headlabel", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::headlabel) },
    Helper { name: "headtarget", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::headtarget) },
    Helper { name: "headtooltip", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::headtooltip) },
    Helper { name: "headURL", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::headURL) },
    Helper { name: "height", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::height) },
    Helper { name: "image", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::image) },
    Helper { name: "imagepos", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::imagepos) },
    Helper { name: "imagescale", owner: "NodeAttributes", make: Make::Bool(a::NodeAttributes::imagescale) },
    Helper { name: "imagepath", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::imagepath) },
    Helper { name: "inputscale", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::inputscale) },
    Helper { name: "K", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::K) },
    Helper { name: "K", owner: "SubgraphAttributes", make: Make::F32(a::SubgraphAttributes::K) },
    Helper { name: "label", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::label) },
    Helper { name: "label", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::label) },
    Helper { name: "label", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::label) },
    Helper { name: "label", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::label) },
    Helper { name: "label_scheme", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::label_scheme) },
    Helper { name: "labelangle", owner: "EdgeAttributes", make: Make::F32(a::EdgeAttributes::labelangle) },
    Helper { name: "labeldistance", owner: "EdgeAttributes", make: Make::F32(a::EdgeAttributes::labeldistance) },
    Helper { name: "labelfloat", owner: "EdgeAttributes", make: Make::Bool(a::EdgeAttributes::labelfloat) },
    Helper { name: "labelfontname", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::labelfontname) },
    Helper { name: "labelfontsize", owner: "EdgeAttributes", make: Make::F32(a::EdgeAttributes::labelfontsize) },
    Helper { name: "labelhref", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::labelhref) },
    Helper { name: "labeljust", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::labeljust) },
    Helper { name: "labeljust", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::labeljust) },
    Helper { name: "labelloc", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::labelloc) },
    Helper { name: "labelloc", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::labelloc) },
    Helper { name: "labelloc", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::labelloc) },
    Helper { name: "labeltarget", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::labeltarget) },
    Helper { name: "labeltooltip", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::labeltooltip) },
    Helper { name: "labelURL", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::labelURL) },
    Helper { name: "landscape", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::landscape) },
    Helper { name: "layer", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::layer) },
    Helper { name: "layer", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::layer) },
    Helper { name: "layer", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::layer) },
    Helper { name: "layerlistsep", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::layerlistsep) },
    Helper { name: "layers", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::layers) },
    Helper { name: "layerselect", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::layerselect) },
    Helper { name: "layersep", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::layersep) },
    Helper { name: "layout", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::layout) },
    Helper { name: "len", owner: "EdgeAttributes", make: Make::F32(a::EdgeAttributes::len) },
    Helper { name: "levels", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::levels) },
    Helper { name: "levelsgap", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::levelsgap) },
    Helper { name: "lhead", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::lhead) },
    Helper { name: "lheight", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::lheight) },
    Helper { name: "lheight", owner: "SubgraphAttributes", make: Make::F32(a::SubgraphAttributes::lheight) },
    Helper { name: "lwidth", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::lwidth) },
    Helper { name: "lwidth", owner: "SubgraphAttributes", make: Make::F32(a::SubgraphAttributes::lwidth) },
    Helper { name: "lp", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::lp) },
    Helper { name: "lp", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::lp) },
    Helper { name: "lp", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::lp) },
    Helper { name: "margin", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::margin) },
    Helper { name: "margin", owner: "SubgraphAttributes", make: Make::F32(a::SubgraphAttributes::margin) },
    Helper { name: "margin", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::margin) },
    Helper { name: "ltail", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::ltail) },
    Helper { name: "maxiter", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::maxiter) },
    Helper { name: "mclimit", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::mclimit) },
    Helper { name: "mindist", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::mindist) },
    Helper { name: "minlen", owner: "EdgeAttributes", make: Make::I32(a::EdgeAttributes::minlen) },
    Helper { name: "mode", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::mode) },
    Helper { name: "model", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::model) },
    Helper { name: "mosek", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::mosek) },
    Helper { name: "newrank", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::newrank) },
    Helper { name: "nodesep", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::nodesep) },
    Helper { name: "normalize", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::normalize) },
    Helper { name: "notranslate", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::notranslate) },
    Helper { name: "nslimit", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::nslimit) },
    Helper { name: "nslimit1", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::nslimit1) },
    Helper { name: "ordering", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::ordering) },
    Helper { name: "ordering", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::ordering) },
    Helper { name: "orientation", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::orientation) },
    Helper { name: "orientation", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::orientation) },
    Helper { name: "outputorder", owner: "GraphAttributes", make: Make::Values(&[("breadthfirst", || a::GraphAttributes::outputorder(a::outputorder::breadthfirst)), ("nodesfirst", || a::GraphAttributes::outputorder(a::outputorder::nodesfirst)), ("edgesfirst", || a::GraphAttributes::outputorder(a::outputorder::edgesfirst))]) },
    Helper { name: "nojustify", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::nojustify) },
    Helper { name: "nojustify", owner: "NodeAttributes", make: Make::Bool(a::NodeAttributes::nojustify) },
    Helper { name: "nojustify", owner: "SubgraphAttributes", make: Make::Bool(a::SubgraphAttributes::nojustify) },
    Helper { name: "nojustify", owner: "EdgeAttributes", make: Make::Bool(a::EdgeAttributes::nojustify) },
    Helper { name: "overlap", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::overlap) },
    Helper { name: "overlap_shrink", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::overlap_shrink) },
    Helper { name: "pack", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::pack) },
    Helper { name: "overlap_scaling", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::overlap_scaling) },
    Helper { name: "pad", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::pad) },
    Helper { name: "page", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::page) },
    Helper { name: "packmode", owner: "GraphAttributes", make: Make::Values(&[("node", || a::GraphAttributes::packmode(a::packmode::node)), ("clust", || a::GraphAttributes::packmode(a::packmode::clust)), ("graph", || a::GraphAttributes::packmode(a::packmode::graph)), ("array", || a::GraphAttributes::packmode(a::packmode::array))]) },
    Helper { name: "pagedir", owner: "GraphAttributes", make: Make::Values(&[("BL", || a::GraphAttributes::pagedir(a::pagedir::BL)), ("BR", || a::GraphAttributes::pagedir(a::pagedir::BR)), ("TL", || a::GraphAttributes::pagedir(a::pagedir::TL)), ("TR", || a::GraphAttributes::pagedir(a::pagedir::TR)), ("RB", || a::GraphAttributes::pagedir(a::pagedir::RB)), ("RT", || a::GraphAttributes::pagedir(a::pagedir::RT)), ("LB", || a::GraphAttributes::pagedir(a::pagedir::LB)), ("LT", || a::GraphAttributes::pagedir(a::pagedir::LT))]) },
    Helper { name: "penwidth", owner: "SubgraphAttributes", make: Make::F32(a::SubgraphAttributes::penwidth) },
    Helper { name: "penwidth", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::penwidth) },
    Helper { name: "penwidth", owner: "EdgeAttributes", make: Make::F32(a::EdgeAttributes::penwidth) },
    Helper { name: "peripheries", owner: "SubgraphAttributes", make: Make::I32(a::SubgraphAttributes::peripheries) },
    Helper { name: "peripheries", owner: "NodeAttributes", make: Make::I32(a::NodeAttributes::peripheries) },
    Helper { name: "pin", owner: "NodeAttributes", make: Make::Bool(a::NodeAttributes::pin) },
    Helper { name: "pos", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::pos) },
    Helper { name: "pos", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::pos) },
    Helper { name: "quadtree", owner: "GraphAttributes", make: Make::Values(&[("normal", || a::GraphAttributes::quadtree(a::quadtree::normal)), ("fast", || a::GraphAttributes::quadtree(a::quadtree::fast)), ("none", || a::GraphAttributes::quadtree(a::quadtree::none))]) },
    Helper { name: "quantum", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::quantum) },
    Helper { name: "rank", owner: "SubgraphAttributes", make: Make::Values(&[("same", || a::SubgraphAttributes::rank(a::rank::same)), ("min", || a::SubgraphAttributes::rank(a::rank::min)), ("source", || a::SubgraphAttributes::rank(a::rank::source)), ("max", || a::SubgraphAttributes::rank(a::rank::max)), ("sink", || a::SubgraphAttributes::rank(a::rank::sink))]) },
    Helper { name: "rankdir", owner: "GraphAttributes", make: Make::Values(&[("TB", || a::GraphAttributes::rankdir(a::rankdir::TB)), ("BT", || a::GraphAttributes::rankdir(a::rankdir::BT)), ("LR", || a::GraphAttributes::rankdir(a::rankdir::LR)), ("RL", || a::GraphAttributes::rankdir(a::rankdir::RL))]) },
    Helper { name: "ranksep", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::ranksep) },
    Helper { name: "ratio", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::ratio) },
    Helper { name: "rects", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::rects) },
    Helper { name: "regular", owner: "NodeAttributes", make: Make::Bool(a::NodeAttributes::regular) },
    Helper { name: "remincross", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::remincross) },
    Helper { name: "repulsiveforce", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::repulsiveforce) },
    Helper { name: "resolution", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::resolution) },
    Helper { name: "root", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::root) },
    Helper { name: "root", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::root) },
    Helper { name: "rotate", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::rotate) },
    Helper { name: "rotation", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::rotation) },
    Helper { name: "samehead", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::samehead) },
    Helper { name: "sametail", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::sametail) },
    Helper { name: "samplepoints", owner: "NodeAttributes", make: Make::I32(a::NodeAttributes::samplepoints) },
    Helper { name: "searchsize", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::searchsize) },
    Helper { name: "scale", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::scale) },
    Helper { name: "sep", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::sep) },
    Helper { name: "shapefile", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::shapefile) },
    Helper { name: "shape", owner: "NodeAttributes", make: Make::Values(&[("box", || a::NodeAttributes::shape(a::shape::box_)), ("polygon", || a::NodeAttributes::shape(a::shape::polygon)), ("ellipse", || a::NodeAttributes::shape(a::shape::ellipse)), ("oval", || a::NodeAttributes::shape(a::shape::oval)), ("circle", || a::NodeAttributes::shape(a::shape::circle)), ("point", || a::NodeAttributes::shape(a::shape::point)), ("egg", || a::NodeAttributes::shape(a::shape::egg)), ("triangle", || a::NodeAttributes::shape(a::shape::triangle)), ("plaintext", || a::NodeAttributes::shape(a::shape::plaintext)), ("plain", || a::NodeAttributes::shape(a::shape::plain)), ("diamond", || a::NodeAttributes::shape(a::shape::diamond)), ("trapezium", || a::NodeAttributes::shape(a::shape::trapezium)), ("parallelogram", || a::NodeAttributes::shape(a::shape::parallelogram)), ("house", || a::NodeAttributes::shape(a::shape::house)), ("pentagon", || a::NodeAttributes::shape(a::shape::pentagon)), ("hexagon", || a::NodeAttributes::shape(a::shape::hexagon)), ("septagon", || a::NodeAttributes::shape(a::shape::septagon)), ("octagon", || a::NodeAttributes::shape(a::shape::octagon)), ("doublecircle", || a::NodeAttributes::shape(a::shape::doublecircle)), ("doubleoctagon", || a::NodeAttributes::shape(a::shape::doubleoctagon)), ("tripleoctagon", || a::NodeAttributes::shape(a::shape::tripleoctagon)), ("invtriangle", || a::NodeAttributes::shape(a::shape::invtriangle)), ("invtrapezium", || a::NodeAttributes::shape(a::shape::invtrapezium)), ("invhouse", || a::NodeAttributes::shape(a::shape::invhouse)), ("Mdiamond", || a::NodeAttributes::shape(a::shape::Mdiamond)), ("Msquare", || a::NodeAttributes::shape(a::shape::Msquare)), ("Mcircle", || a::NodeAttributes::shape(a::shape::Mcircle)), ("rect", || a::NodeAttributes::shape(a::shape::rect)), ("rectangle", || a::NodeAttributes::shape(a::shape::rectangle)), ("square", || a::NodeAttributes::shape(a::shape::square)), ("star", || a::NodeAttributes::shape(a::shape::star)), ("none", || a::NodeAttributes::shape(a::shape::none)), ("underline", || a::NodeAttributes::shape(a::shape::underline)), ("cylinder", || a::NodeAttributes::shape(a::shape::cylinder)), ("note", || a::NodeAttributes::shape(a::shape::note)), ("tab", || a::NodeAttributes::shape(a::shape::tab)), ("folder", || a::NodeAttributes::shape(a::shape::folder)), ("box3d", || a::NodeAttributes::shape(a::shape::box3d)), ("component", || a::NodeAttributes::shape(a::shape::component)), ("promoter", || a::NodeAttributes::shape(a::shape::promoter)), ("cds", || a::NodeAttributes::shape(a::shape::cds)), ("terminator", || a::NodeAttributes::shape(a::shape::terminator)), ("utr", || a::NodeAttributes::shape(a::shape::utr)), ("primersite", || a::NodeAttributes::shape(a::shape::primersite)), ("restrictionsite", || a::NodeAttributes::shape(a::shape::restrictionsite)), ("fivepoverhang", || a::NodeAttributes::shape(a::shape::fivepoverhang)), ("threepoverhang", || a::NodeAttributes::shape(a::shape::threepoverhang)), ("noverhang", || a::NodeAttributes::shape(a::shape::noverhang)), ("assembly", || a::NodeAttributes::shape(a::shape::assembly)), ("signature", || a::NodeAttributes::shape(a::shape::signature)), ("insulator", || a::NodeAttributes::shape(a::shape::insulator)), ("ribosite", || a::NodeAttributes::shape(a::shape::ribosite)), ("rnastab", || a::NodeAttributes::shape(a::shape::rnastab)), ("proteasesite", || a::NodeAttributes::shape(a::shape::proteasesite)), ("proteinstab", || a::NodeAttributes::shape(a::shape::proteinstab)), ("rpromoter", || a::NodeAttributes::shape(a::shape::rpromoter)), ("rarrow", || a::NodeAttributes::shape(a::shape::rarrow)), ("larrow", || a::NodeAttributes::shape(a::shape::larrow)), ("lpromoter", || a::NodeAttributes::shape(a::shape::lpromoter))]) },
    Helper { name: "showboxes", owner: "NodeAttributes", make: Make::I32(a::NodeAttributes::showboxes) },
    Helper { name: "showboxes", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::showboxes) },
    Helper { name: "showboxes", owner: "EdgeAttributes", make: Make::I32(a::EdgeAttributes::showboxes) },
    Helper { name: "sides", owner: "NodeAttributes", make: Make::I32(a::NodeAttributes::sides) },
    Helper { name: "skew", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::skew) },
    Helper { name: "smoothing", owner: "GraphAttributes", make: Make::Values(&[("none", || a::GraphAttributes::smoothing(a::smoothing::none)), ("avg_dist", || a::GraphAttributes::smoothing(a::smoothing::avg_dist)), ("graph_dist", || a::GraphAttributes::smoothing(a::smoothing::graph_dist)), ("power_dist", || a::GraphAttributes::smoothing(a::smoothing::power_dist)), ("rng", || a::GraphAttributes::smoothing(a::smoothing::rng)), ("spring", || a::GraphAttributes::smoothing(a::smoothing::spring)), ("triangle", || a::GraphAttributes::smoothing(a::smoothing::triangle))]) },
    Helper { name: "size", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::size) },
    Helper { name: "sortv", owner: "GraphAttributes", make: Make::I32(a::GraphAttributes::sortv) },
    Helper { name: "sortv", owner: "SubgraphAttributes", make: Make::I32(a::SubgraphAttributes::sortv) },
    Helper { name: "sortv", owner: "NodeAttributes", make: Make::I32(a::NodeAttributes::sortv) },
    Helper { name: "splines", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::splines) },
    Helper { name: "start", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::start) },
    Helper { name: "style", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::style) },
    Helper { name: "style", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::style) },
    Helper { name: "style", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::style) },
    Helper { name: "style", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::style) },
    Helper { name: "stylesheet", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::stylesheet) },
    Helper { name: "tail_lp", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::tail_lp) },
    Helper { name: "tailhref", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::tailhref) },
    Helper { name: "taillabel", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::taillabel) },
    Helper { name: "tailtarget", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::tailtarget) },
    Helper { name: "tailtooltip", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::tailtooltip) },
    Helper { name: "tailURL", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::tailURL) },
    Helper { name: "target", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::target) },
    Helper { name: "target", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::target) },
    Helper { name: "target", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::target) },
    Helper { name: "target", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::target) },
    Helper { name: "tooltip", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::tooltip) },
    Helper { name: "tooltip", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::tooltip) },
    Helper { name: "tooltip", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::tooltip) },
    Helper { name: "tooltip", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::tooltip) },
    Helper { name: "URL", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::URL) },
    Helper { name: "URL", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::URL) },
    Helper { name: "URL", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::URL) },
    Helper { name: "URL", owner: "SubgraphAttributes", make: Make::Text(a::SubgraphAttributes::URL) },
    Helper { name: "tailclip", owner: "EdgeAttributes", make: Make::Bool(a::EdgeAttributes::tailclip) },
    Helper { name: "truecolor", owner: "GraphAttributes", make: Make::Bool(a::GraphAttributes::truecolor) },
    Helper { name: "vertices", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::vertices) },
    Helper { name: "viewport", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::viewport) },
    Helper { name: "voro_margin", owner: "GraphAttributes", make: Make::F32(a::GraphAttributes::voro_margin) },
    Helper { name: "weight", owner: "EdgeAttributes", make: Make::I32(a::EdgeAttributes::weight) },
    Helper { name: "width", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::width) },
    Helper { name: "xdotversion", owner: "GraphAttributes", make: Make::Text(a::GraphAttributes::xdotversion) },
    Helper { name: "xlabel", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::xlabel) },
    Helper { name: "xlabel", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::xlabel) },
    Helper { name: "xlp", owner: "EdgeAttributes", make: Make::Text(a::EdgeAttributes::xlp) },
    Helper { name: "xlp", owner: "NodeAttributes", make: Make::Text(a::NodeAttributes::xlp) },
    Helper { name: "z", owner: "NodeAttributes", make: Make::F32(a::NodeAttributes::z) },
    Helper { name: "bgcolor", owner: "GraphAttributes", make: Make::Color(a::GraphAttributes::bgcolor) },
    Helper { name: "bgcolor", owner: "SubgraphAttributes", make: Make::Color(a::SubgraphAttributes::bgcolor) },
    Helper { name: "color", owner: "EdgeAttributes", make: Make::Color(a::EdgeAttributes::color) },
    Helper { name: "color", owner: "SubgraphAttributes", make: Make::Color(a::SubgraphAttributes::color) },
    Helper { name: "color", owner: "NodeAttributes", make: Make::Color(a::NodeAttributes::color) },
    Helper { name: "fillcolor", owner: "EdgeAttributes", make: Make::Color(a::EdgeAttributes::fillcolor) },
    Helper { name: "fillcolor", owner: "SubgraphAttributes", make: Make::Color(a::SubgraphAttributes::fillcolor) },
    Helper { name: "fillcolor", owner: "NodeAttributes", make: Make::Color(a::NodeAttributes::fillcolor) },
    Helper { name: "fontcolor", owner: "GraphAttributes", make: Make::Color(a::GraphAttributes::fontcolor) },
    Helper { name: "fontcolor", owner: "EdgeAttributes", make: Make::Color(a::EdgeAttributes::fontcolor) },
    Helper { name: "fontcolor", owner: "SubgraphAttributes", make: Make::Color(a::SubgraphAttributes::fontcolor) },
    Helper { name: "fontcolor", owner: "NodeAttributes", make: Make::Color(a::NodeAttributes::fontcolor) },
    Helper { name: "labelfontcolor", owner: "EdgeAttributes", make: Make::Color(a::EdgeAttributes::labelfontcolor) },
    Helper { name: "pencolor", owner: "SubgraphAttributes", make: Make::Color(a::SubgraphAttributes::pencolor) },
];
pub static DEFAULTS: &[(&str, &str, fn() -> ds::Attribute)] = &[
    ("_background", "<none>", || a::_background::default().into_attr()),
    ("area", "1", || a::area::default().into_attr()),
    ("arrowhead", "normal", || a::arrowhead::default().into_attr()),
    ("arrowtail", "normal", || a::arrowtail::default().into_attr()),
    ("arrowsize", "1", || a::arrowsize::default().into_attr()),
    ("center", "false", || a::center::default().into_attr()),
    ("charset", "\"UTF-8\"", || a::charset::default().into_attr()),
    ("class", "\"\"", || a::class::default().into_attr()),
    ("colorscheme", "\"\"", || a::colorscheme::default().into_attr()),
    ("comment", "\"\"", || a::comment::default().into_attr()),
    ("compound", "false", || a::compound::default().into_attr()),
    ("concentrate", "false", || a::concentrate::default().into_attr()),
    ("Damping", "0.99", || a::Damping::default().into_attr()),
    ("decorate", "false", || a::decorate::default().into_attr()),
    ("constraint", "true", || a::constraint::default().into_attr()),
    ("dim", "2", || a::dim::default().into_attr()),
    ("dimen", "2", || a::dimen::default().into_attr()),
    ("clusterrank", "local", || a::clusterrank::default().into_attr()),
    ("dir", "forward", || a::dir::default().into_attr()),
    ("diredgeconstraints", "false", || a::diredgeconstraints::default().into_attr()),
    ("distortion", "0", || a::distortion::default().into_attr()),
    ("dpi", "96", || a::dpi::default().into_attr()),
    ("esep", "3", || a::esep::default().into_attr()),
    ("fixedsize", "false", || a::fixedsize::default().into_attr()),
    ("fontname", "\"Times-Roman\"", || a::fontname::default().into_attr()),
    ("href", "\"\"", || a::href::default().into_attr()),
    ("id", "\"\"", || a::id::default().into_attr()),
    ("fontsize", "14", || a::fontsize::default().into_attr()),
    ("fontnames", "\"\"", || a::fontnames::default().into_attr()),
    ("fontpath", "<system-dependent>", || a::fontpath::default().into_attr()),
    ("forcelabels", "true", || a::forcelabels::default().into_attr()),
    ("headclip", "true", || a::headclip::default().into_attr()),
    ("headhref", "\"\"", || a::headhref::default().into_attr()),
    ("headlabel", "\"\"", || a::headlabel::default().into_attr()),
    ("headtarget", "\"\"", || a::headtarget::default().into_attr()),
    ("headtooltip", "\"\"", || a::headtooltip::default().into_attr()),
    ("headURL", "\"\"", || a::headURL::default().into_attr()),
    ("height", "0.5", || a::height::default().into_attr()),
    ("image", "\"\"", || a::image::default().into_attr()),
    ("imagepos", "mc", || a::imagepos::default().into_attr()),
    ("imagescale", "false", || a::imagescale::default().into_attr()),
    ("imagepath", "\"\"", || a::imagepath::default().into_attr()),
    ("K", "0.3", || a::K::default().into_attr()),
    ("label", "\"\"", || a::label::default().into_attr()),
    ("label_scheme", "0", || a::label_scheme::default().into_attr()),
    ("labelangle", "-25", || a::labelangle::default().into_attr()),
    ("labeldistance", "1", || a::labeldistance::default().into_attr()),
    ("labelfloat", "false", || a::labelfloat::default().into_attr()),
    ("labelfontname", "\"Times-Roman\"", || a::labelfontname::default().into_attr()),
    ("labelfontsize", "14", || a::labelfontsize::default().into_attr()),
    ("labelhref", "\"\"", || a::labelhref::default().into_attr()),
    ("labeljust", "c", || a::labeljust::default().into_attr()),
    ("landscape", "false", || a::landscape::default().into_attr()),
    ("layerlistsep", "\",\"", || a::layerlistsep::default().into_attr()),
    ("layersep", "\":\t \"", || a::layersep::default().into_attr()),
    ("levelsgap", "0", || a::levelsgap::default().into_attr()),
    ("mclimit", "1", || a::mclimit::default().into_attr()),
    ("mindist", "1", || a::mindist::default().into_attr()),
    ("minlen", "1", || a::minlen::default().into_attr()),
    ("mode", "major", || a::mode::default().into_attr()),
    ("model", "shortpath", || a::model::default().into_attr()),
    ("mosek", "false", || a::mosek::default().into_attr()),
    ("newrank", "false", || a::newrank::default().into_attr()),
    ("nodesep", "0.25", || a::nodesep::default().into_attr()),
    ("normalize", "false", || a::normalize::default().into_attr()),
    ("notranslate", "false", || a::notranslate::default().into_attr()),
    ("orientation", "0", || a::orientation::default().into_attr()),
    ("outputorder", "breadthfirst", || a::outputorder::default().into_attr()),
    ("nojustify", "false", || a::nojustify::default().into_attr()),
    ("overlap", "true", || a::overlap::default().into_attr()),
    ("overlap_shrink", "true", || a::overlap_shrink::default().into_attr()),
    ("pack", "false", || a::pack::default().into_attr()),
    ("overlap_scaling", "-4", || a::overlap_scaling::default().into_attr()),
    ("pad", "0.0555", || a::pad::default().into_attr()),
    ("packmode", "node", || a::packmode::default().into_attr()),
    ("pagedir", "BL", || a::pagedir::default().into_attr()),
    ("penwidth", "1", || a::penwidth::default().into_attr()),
    ("pin", "false", || a::pin::default().into_attr()),
    ("quadtree", "normal", || a::quadtree::default().into_attr()),
    ("quantum", "0", || a::quantum::default().into_attr()),
    ("rankdir", "TB", || a::rankdir::default().into_attr()),
    ("ranksep", "0.5", || a::ranksep::default().into_attr()),
    ("regular", "false", || a::regular::default().into_attr()),
    ("remincross", "true", || a::remincross::default().into_attr()),
    ("repulsiveforce", "1", || a::repulsiveforce::default().into_attr()),
    ("resolution", "96", || a::resolution::default().into_attr()),
    ("rotate", "0", || a::rotate::default().into_attr()),
    ("rotation", "0", || a::rotation::default().into_attr()),
    ("samplepoints", "8", || a::samplepoints::default().into_attr()),
    ("searchsize", "30", || a::searchsize::default().into_attr()),
    ("sep", "4", || a::sep::default().into_attr()),
    ("shape", "ellipse", || a::shape::default().into_attr()),
    ("showboxes", "0", || a::showboxes::default().into_attr()),
    ("sides", "4", || a::sides::default().into_attr()),
    ("skew", "0", || a::skew::default().into_attr()),
    ("smoothing", "none", || a::smoothing::default().into_attr()),
    ("sortv", "0", || a::sortv::default().into_attr()),
    ("tailclip", "true", || a::tailclip::default().into_attr()),
    ("voro_margin", "0.05", || a::voro_margin::default().into_attr()),
    ("weight", "1", || a::weight::default().into_attr()),
    ("width", "0.75", || a::width::default().into_attr()),
    ("z", "0", || a::z::default().into_attr()),
    ("color", "black", || a::color::default().into_attr()),
    ("labelfontcolor", "black", || a::labelfontcolor::default().into_attr()),
    ("pencolor", "black", || a::pencolor::default().into_attr()),
];
pub static ENUMS: &[(&str, Values)] = &[
    ("arrowhead", &[("normal", || a::arrowhead::normal.into_attr()), ("dot", || a::arrowhead::dot.into_attr()), ("odot", || a::arrowhead::odot.into_attr()), ("none", || a::arrowhead::none.into_attr()), ("empty", || a::arrowhead::empty.into_attr()), ("diamond", || a::arrowhead::diamond.into_attr()), ("ediamond", || a::arrowhead::ediamond.into_attr()), ("odiamond", || a::arrowhead::odiamond.into_attr()), ("box", || a::arrowhead::box_.into_attr()), ("open", || a::arrowhead::open.into_attr()), ("vee", || a::arrowhead::vee.into_attr()), ("halfopen", || a::arrowhead::halfopen.into_attr()), ("obox", || a::arrowhead::obox.into_attr()), ("crow", || a::arrowhead::crow.into_attr()), ("invempty", || a::arrowhead::invempty.into_attr()), ("tee", || a::arrowhead::tee.into_attr()), ("invodot", || a::arrowhead::invodot.into_attr()), ("invdot", || a::arrowhead::invdot.into_attr()), ("inv", || a::arrowhead::inv.into_attr())]),
    ("arrowtail", &[("normal", || a::arrowtail::normal.into_attr()), ("dot", || a::arrowtail::dot.into_attr()), ("odot", || a::arrowtail::odot.into_attr()), ("none", || a::arrowtail::none.into_attr()), ("empty", || a::arrowtail::empty.into_attr()), ("diamond", || a::arrowtail::diamond.into_attr()), ("ediamond", || a::arrowtail::ediamond.into_attr()), ("odiamond", || a::arrowtail::odiamond.into_attr()), ("box", || a::arrowtail::box_.into_attr()), ("open", || a::arrowtail::open.into_attr()), ("vee", || a::arrowtail::vee.into_attr()), ("halfopen", || a::arrowtail::halfopen.into_attr()), ("obox", || a::arrowtail::obox.into_attr()), ("crow", || a::arrowtail::crow.into_attr()), ("invempty", || a::arrowtail::invempty.into_attr()), ("tee", || a::arrowtail::tee.into_attr()), ("invodot", || a::arrowtail::invodot.into_attr()), ("invdot", || a::arrowtail::invdot.into_attr()), ("inv", || a::arrowtail::inv.into_attr())]),
    ("clusterrank", &[("local", || a::clusterrank::local.into_attr()), ("global", || a::clusterrank::global.into_attr()), ("none", || a::clusterrank::none.into_attr())]),
    ("dir", &[("forward", || a::dir::forward.into_attr()), ("back", || a::dir::back.into_attr()), ("both", || a::dir::both.into_attr()), ("none", || a::dir::none.into_attr())]),
    ("outputorder", &[("breadthfirst", || a::outputorder::breadthfirst.into_attr()), ("nodesfirst", || a::outputorder::nodesfirst.into_attr()), ("edgesfirst", || a::outputorder::edgesfirst.into_attr())]),
    ("packmode", &[("node", || a::packmode::node.into_attr()), ("clust", || a::packmode::clust.into_attr()), ("graph", || a::packmode::graph.into_attr()), ("array", || a::packmode::array.into_attr())]),
    ("pagedir", &[("BL", || a::pagedir::BL.into_attr()), ("BR", || a::pagedir::BR.into_attr()), ("TL", || a::pagedir::TL.into_attr()), ("TR", || a::pagedir::TR.into_attr()), ("RB", || a::pagedir::RB.into_attr()), ("RT", || a::pagedir::RT.into_attr()), ("LB", || a::pagedir::LB.into_attr()), ("LT", || a::pagedir::LT.into_attr())]),
    ("quadtree", &[("normal", || a::quadtree::normal.into_attr()), ("fast", || a::quadtree::fast.into_attr()), ("none", || a::quadtree::none.into_attr())]),
    ("rank", &[("same", || a::rank::same.into_attr()), ("min", || a::rank::min.into_attr()), ("source", || a::rank::source.into_attr()), ("max", || a::rank::max.into_attr()), ("sink", || a::rank::sink.into_attr())]),
    ("rankdir", &[("TB", || a::rankdir::TB.into_attr()), ("BT", || a::rankdir::BT.into_attr()), ("LR", || a::rankdir::LR.into_attr()), ("RL", || a::rankdir::RL.into_attr())]),
    ("shape", &[("box", || a::shape::box_.into_attr()), ("polygon", || a::shape::polygon.into_attr()), ("ellipse", || a::shape::ellipse.into_attr()), ("oval", || a::shape::oval.into_attr()), ("circle", || a::shape::circle.into_attr()), ("point", || a::shape::point.into_attr()), ("egg", || a::shape::egg.into_attr()), ("triangle", || a::shape::triangle.into_attr()), ("plaintext", || a::shape::plaintext.into_attr()), ("plain", || a::shape::plain.into_attr()), ("diamond", || a::shape::diamond.into_attr()), ("trapezium", || a::shape::trapezium.into_attr()), ("parallelogram", || a::shape::parallelogram.into_attr()), ("house", || a::shape::house.into_attr()), ("pentagon", || a::shape::pentagon.into_attr()), ("hexagon", || a::shape::hexagon.into_attr()), ("septagon", || a::shape::septagon.into_attr()), ("octagon", || a::shape::octagon.into_attr()), ("doublecircle", || a::shape::doublecircle.into_attr()), ("doubleoctagon", || a::shape::doubleoctagon.into_attr()), ("tripleoctagon", || a::shape::tripleoctagon.into_attr()), ("invtriangle", || a::shape::invtriangle.into_attr()), ("invtrapezium", || a::shape::invtrapezium.into_attr()), ("invhouse", || a::shape::invhouse.into_attr()), ("Mdiamond", || a::shape::Mdiamond.into_attr()), ("Msquare", || a::shape::Msquare.into_attr()), ("Mcircle", || a::shape::Mcircle.into_attr()), ("rect", || a::shape::rect.into_attr()), ("rectangle", || a::shape::rectangle.into_attr()), ("square", || a::shape::square.into_attr()), ("star", || a::shape::star.into_attr()), ("none", || a::shape::none.into_attr()), ("underline", || a::shape::underline.into_attr()), ("cylinder", || a::shape::cylinder.into_attr()), ("note", || a::shape::note.into_attr()), ("tab", || a::shape::tab.into_attr()), ("folder", || a::shape::folder.into_attr()), ("box3d", || a::shape::box3d.into_attr()), ("component", || a::shape::component.into_attr()), ("promoter", || a::shape::promoter.into_attr()), ("cds", || a::shape::cds.into_attr()), ("terminator", || a::shape::terminator.into_attr()), ("utr", || a::shape::utr.into_attr()), ("primersite", || a::shape::primersite.into_attr()), ("restrictionsite", || a::shape::restrictionsite.into_attr()), ("fivepoverhang", || a::shape::fivepoverhang.into_attr()), ("threepoverhang", || a::shape::threepoverhang.into_attr()), ("noverhang", || a::shape::noverhang.into_attr()), ("assembly", || a::shape::assembly.into_attr()), ("signature", || a::shape::signature.into_attr()), ("insulator", || a::shape::insulator.into_attr()), ("ribosite", || a::shape::ribosite.into_attr()), ("rnastab", || a::shape::rnastab.into_attr()), ("proteasesite", || a::shape::proteasesite.into_attr()), ("proteinstab", || a::shape::proteinstab.into_attr()), ("rpromoter", || a::shape::rpromoter.into_attr()), ("rarrow", || a::shape::rarrow.into_attr()), ("larrow", || a::shape::larrow.into_attr()), ("lpromoter", || a::shape::lpromoter.into_attr())]),
    ("smoothing", &[("none", || a::smoothing::none.into_attr()), ("avg_dist", || a::smoothing::avg_dist.into_attr()), ("graph_dist", || a::smoothing::graph_dist.into_attr()), ("power_dist", || a::smoothing::power_dist.into_attr()), ("rng", || a::smoothing::rng.into_attr()), ("spring", || a::smoothing::spring.into_attr()), ("triangle", || a::smoothing::triangle.into_attr())]),
];
pub static COLORS: &[(&str, fn() -> a::color_name)] = &[
    ("aliceblue", || a::color_name::aliceblue),
    ("antiquewhite", || a::color_name::antiquewhite),
    ("antiquewhite1", || a::color_name::antiquewhite1),
    ("antiquewhite2", || a::color_name::antiquewhite2),
    ("antiquewhite3", || a::color_name::antiquewhite3),
    ("antiquewhite4", || a::color_name::antiquewhite4),
    ("aqua", || a::color_name::aqua),
    ("aquamarine", || a::color_name::aquamarine),
    ("aquamarine1", || a::color_name::aquamarine1),
    ("aquamarine2", || a::color_name::aquamarine2),
    ("aquamarine3", || a::color_name::aquamarine3),
    ("aquamarine4", || a::color_name::aquamarine4),
    ("azure", || a::color_name::azure),
    ("azure1", || a::color_name::azure1),
    ("azure2", || a::color_name::azure2),
    ("azure3", || a::color_name::azure3),
    ("azure4", || a::color_name::azure4),
    ("beige", || a::color_name::beige),
    ("bisque", || a::color_name::bisque),
    ("bisque1", || a::color_name::bisque1),
    ("bisque2", || a::color_name::bisque2),
    ("bisque3", || a::color_name::bisque3),
    ("bisque4", || a::color_name::bisque4),
    ("black", || a::color_name::black),
    ("blanchedalmond", || a::color_name::blanchedalmond),
    ("blue", || a::color_name::blue),
    ("blue1", || a::color_name::blue1),
    ("blue2", || a::color_name::blue2),
    ("blue3", || a::color_name::blue3),
    ("blue4", || a::color_name::blue4),
    ("blueviolet", || a::color_name::blueviolet),
    ("brown", || a::color_name::brown),
    ("brown1", || a::color_name::brown1),
    ("brown2", || a::color_name::brown2),
    ("brown3", || a::color_name::brown3),
    ("brown4", || a::color_name::brown4),
    ("burlywood", || a::color_name::burlywood),
    ("burlywood1", || a::color_name::burlywood1),
    ("burlywood2", || a::color_name::burlywood2),
    ("burlywood3", || a::color_name::burlywood3),
    ("burlywood4", || a::color_name::burlywood4),
    ("cadetblue", || a::color_name::cadetblue),
    ("cadetblue1", || a::color_name::cadetblue1),
    ("cadetblue2", || a::color_name::cadetblue2),
    ("cadetblue3", || a::color_name::cadetblue3),
    ("cadetblue4", || a::color_name::cadetblue4),
    ("chartreuse", || a::color_name::chartreuse),
    ("chartreuse1", || a::color_name::chartreuse1),
    ("chartreuse2", || a::color_name::chartreuse2),
    ("chartreuse3", || a::color_name::chartreuse3),
    ("chartreuse4", || a::color_name::chartreuse4),
    ("chocolate", || a::color_name::chocolate),
    ("chocolate1", || a::color_name::chocolate1),
    ("chocolate2", || a::color_name::chocolate2),
    ("chocolate3", || a::color_name::chocolate3),
    ("chocolate4", || a::color_name::chocolate4),
    ("coral", || a::color_name::coral),
    ("coral1", || a::color_name::coral1),
    ("coral2", || a::color_name::coral2),
    ("coral3", || a::color_name::coral3),
    ("coral4", || a::color_name::coral4),
    ("cornflowerblue", || a::color_name::cornflowerblue),
    ("cornsilk", || a::color_name::cornsilk),
    ("cornsilk1", || a::color_name::cornsilk1),
    ("cornsilk2", || a::color_name::cornsilk2),
    ("cornsilk3", || a::color_name::cornsilk3),
    ("cornsilk4", || a::color_name::cornsilk4),
    ("crimson", || a::color_name::crimson),
    ("cyan", || a::color_name::cyan),
    ("cyan1", || a::color_name::cyan1),
    ("cyan2", || a::color_name::cyan2),
    ("cyan3", || a::color_name::cyan3),
    ("cyan4", || a::color_name::cyan4),
    ("darkblue", || a::color_name::darkblue),
    ("darkcyan", || a::color_name::darkcyan),
    ("darkgoldenrod", || a::color_name::darkgoldenrod),
    ("darkgoldenrod1", || a::color_name::darkgoldenrod1),
    ("darkgoldenrod2", || a::color_name::darkgoldenrod2),
    ("darkgoldenrod3", || a::color_name::darkgoldenrod3),
    ("darkgoldenrod4", || a::color_name::darkgoldenrod4),
    ("darkgray", || a::color_name::darkgray),
    ("darkgreen", || a::color_name::darkgreen),
    ("darkgrey", || a::color_name::darkgrey),
    ("darkkhaki", || a::color_name::darkkhaki),
    ("darkmagenta", || a::color_name::darkmagenta),
    ("darkolivegreen", || a::color_name::darkolivegreen),
    ("darkolivegreen1", || a::color_name::darkolivegreen1),
    ("darkolivegreen2", || a::color_name::darkolivegreen2),
    ("darkolivegreen3", || a::color_name::darkolivegreen3),
    ("darkolivegreen4", || a::color_name::darkolivegreen4),
    ("darkorange", || a::color_name::darkorange),
    ("darkorange1", || a::color_name::darkorange1),
    ("darkorange2", || a::color_name::darkorange2),
    ("darkorange3", || a::color_name::darkorange3),
    ("darkorange4", || a::color_name::darkorange4),
    ("darkorchid", || a::color_name::darkorchid),
    ("darkorchid1", || a::color_name::darkorchid1),
    ("darkorchid2", || a::color_name::darkorchid2),
    ("darkorchid3", || a::color_name::darkorchid3),
    ("darkorchid4", || a::color_name::darkorchid4),
    ("darkred", || a::color_name::darkred),
    ("darksalmon", || a::color_name::darksalmon),
    ("darkseagreen", || a::color_name::darkseagreen),
    ("darkseagreen1", || a::color_name::darkseagreen1),
    ("darkseagreen2", || a::color_name::darkseagreen2),
    ("darkseagreen3", || a::color_name::darkseagreen3),
    ("darkseagreen4", || a::color_name::darkseagreen4),
    ("darkslateblue", || a::color_name::darkslateblue),
    ("darkslategray", || a::color_name::darkslategray),
    ("darkslategray1", || a::color_name::darkslategray1),
    ("darkslategray2", || a::color_name::darkslategray2),
    ("darkslategray3", || a::color_name::darkslategray3),
    ("darkslategray4", || a::color_name::darkslategray4),
    ("darkslategrey", || a::color_name::darkslategrey),
    ("darkturquoise", || a::color_name::darkturquoise),
    ("darkviolet", || a::color_name::darkviolet),
    ("deeppink", || a::color_name::deeppink),
    ("deeppink1", || a::color_name::deeppink1),
    ("deeppink2", || a::color_name::deeppink2),
    ("deeppink3", || a::color_name::deeppink3),
    ("deeppink4", || a::color_name::deeppink4),
    ("deepskyblue", || a::color_name::deepskyblue),
    ("deepskyblue1", || a::color_name::deepskyblue1),
    ("deepskyblue2", || a::color_name::deepskyblue2),
    ("deepskyblue3", || a::color_name::deepskyblue3),
    ("deepskyblue4", || a::color_name::deepskyblue4),
    ("dimgray", || a::color_name::dimgray),
    ("dimgrey", || a::color_name::dimgrey),
    ("dodgerblue", || a::color_name::dodgerblue),
    ("dodgerblue1", || a::color_name::dodgerblue1),
    ("dodgerblue2", || a::color_name::dodgerblue2),
    ("dodgerblue3", || a::color_name::dodgerblue3),
    ("dodgerblue4", || a::color_name::dodgerblue4),
    ("firebrick", || a::color_name::firebrick),
    ("firebrick1", || a::color_name::firebrick1),
    ("firebrick2", || a::color_name::firebrick2),
    ("firebrick3", || a::color_name::firebrick3),
    ("firebrick4", || a::color_name::firebrick4),
    ("floralwhite", || a::color_name::floralwhite),
    ("forestgreen", || a::color_name::forestgreen),
    ("fuchsia", || a::color_name::fuchsia),
    ("gainsboro", || a::color_name::gainsboro),
    ("ghostwhite", || a::color_name::ghostwhite),
    ("gold", || a::color_name::gold),
    ("gold1", || a::color_name::gold1),
    ("gold2", || a::color_name::gold2),
    ("gold3", || a::color_name::gold3),
    ("gold4", || a::color_name::gold4),
    ("goldenrod", || a::color_name::goldenrod),
    ("goldenrod1", || a::color_name::goldenrod1),
    ("goldenrod2", || a::color_name::goldenrod2),
    ("goldenrod3", || a::color_name::goldenrod3),
    ("goldenrod4", || a::color_name::goldenrod4),
    ("gray", || a::color_name::gray),
    ("gray0", || a::color_name::gray0),
    ("gray1", || a::color_name::gray1),
    ("gray10", || a::color_name::gray10),
    ("gray100", || a::color_name::gray100),
    ("gray11", || a::color_name::gray11),
    ("gray12", || a::color_name::gray12),
    ("gray13", || a::color_name::gray13),
    ("gray14", || a::color_name::gray14),
    ("gray15", || a::color_name::gray15),
    ("gray16", || a::color_name::gray16),
    ("gray17", || a::color_name::gray17),
    ("gray18", || a::color_name::gray18),
    ("gray19", || a::color_name::gray19),
    ("gray2", || a::color_name::gray2),
    ("gray20", || a::color_name::gray20),
    ("gray21", || a::color_name::gray21),
    ("gray22", || a::color_name::gray22),
    ("gray23", || a::color_name::gray23),
    ("gray24", || a::color_name::gray24),
    ("gray25", || a::color_name::gray25),
    ("gray26", || a::color_name::gray26),
    ("gray27", || a::color_name::gray27),
    ("gray28", || a::color_name::gray28),
    ("gray29", || a::color_name::gray29),
    ("gray3", || a::color_name::gray3),
    ("gray30", || a::color_name::gray30),
    ("gray31", || a::color_name::gray31),
    ("gray32", || a::color_name::gray32),
    ("gray33", || a::color_name::gray33),
    ("gray34", || a::color_name::gray34),
    ("gray35", || a::color_name::gray35),
    ("gray36", || a::color_name::gray36),
    ("gray37", || a::color_name::gray37),
    ("gray38", || a::color_name::gray38),
    ("gray39", || a::color_name::gray39),
    ("gray4", || a::color_name::gray4),
    ("gray40", || a::color_name::gray40),
    ("gray41", || a::color_name::gray41),
    ("gray42", || a::color_name::gray42),
    ("gray43", || a::color_name::gray43),
    ("gray44", || a::color_name::gray44),
    ("gray45", || a::color_name::gray45),
    ("gray46", || a::color_name::gray46),
    ("gray47", || a::color_name::gray47),
    ("gray48", || a::color_name::gray48),
    ("gray49", || a::color_name::gray49),
    ("gray5", || a::color_name::gray5),
    ("gray50", || a::color_name::gray50),
    ("gray51", || a::color_name::gray51),
    ("gray52", || a::color_name::gray52),
    ("gray53", || a::color_name::gray53),
    ("gray54", || a::color_name::gray54),
    ("gray55", || a::color_name::gray55),
    ("gray56", || a::color_name::gray56),
    ("gray57", || a::color_name::gray57),
    ("gray58", || a::color_name::gray58),
    ("gray59", || a::color_name::gray59),
    ("gray6", || a::color_name::gray6),
    ("gray60", || a::color_name::gray60),
    ("gray61", || a::color_name::gray61),
    ("gray62", || a::color_name::gray62),
    ("gray63", || a::color_name::gray63),
    ("gray64", || a::color_name::gray64),
    ("gray65", || a::color_name::gray65),
    ("gray66", || a::color_name::gray66),
    ("gray67", || a::color_name::gray67),
    ("gray68", || a::color_name::gray68),
    ("gray69", || a::color_name::gray69),
    ("gray7", || a::color_name::gray7),
    ("gray70", || a::color_name::gray70),
    ("gray71", || a::color_name::gray71),
    ("gray72", || a::color_name::gray72),
    ("gray73", || a::color_name::gray73),
    ("gray74", || a::color_name::gray74),
    ("gray75", || a::color_name::gray75),
    ("gray76", || a::color_name::gray76),
    ("gray77", || a::color_name::gray77),
    ("gray78", || a::color_name::gray78),
    ("gray79", || a::color_name::gray79),
    ("gray8", || a::color_name::gray8),
    ("gray80", || a::color_name::gray80),
    ("gray81", || a::color_name::gray81),
    ("gray82", || a::color_name::gray82),
    ("gray83", || a::color_name::gray83),
    ("gray84", || a::color_name::gray84),
    ("gray85", || a::color_name::gray85),
    ("gray86", || a::color_name::gray86),
    ("gray87", || a::color_name::gray87),
    ("gray88", || a::color_name::gray88),
    ("gray89", || a::color_name::gray89),
    ("gray9", || a::color_name::gray9),
    ("gray90", || a::color_name::gray90),
    ("gray91", || a::color_name::gray91),
    ("gray92", || a::color_name::gray92),
    ("gray93", || a::color_name::gray93),
    ("gray94", || a::color_name::gray94),
    ("gray95", || a::color_name::gray95),
    ("gray96", || a::color_name::gray96),
    ("gray97", || a::color_name::gray97),
    ("gray98", || a::color_name::gray98),
    ("gray99", || a::color_name::gray99),
    ("green", || a::color_name::green),
    ("green1", || a::color_name::green1),
    ("green2", || a::color_name::green2),
    ("green3", || a::color_name::green3),
    ("green4", || a::color_name::green4),
    ("greenyellow", || a::color_name::greenyellow),
    ("grey", || a::color_name::grey),
    ("grey0", || a::color_name::grey0),
    ("grey1", || a::color_name::grey1),
    ("grey10", || a::color_name::grey10),
    ("grey100", || a::color_name::grey100),
    ("grey11", || a::color_name::grey11),
    ("grey12", || a::color_name::grey12),
    ("grey13", || a::color_name::grey13),
    ("grey14", || a::color_name::grey14),
    ("grey15", || a::color_name::grey15),
    ("grey16", || a::color_name::grey16),
    ("grey17", || a::color_name::grey17),
    ("grey18", || a::color_name::grey18),
    ("grey19", || a::color_name::grey19),
    ("grey2", || a::color_name::grey2),
    ("grey20", || a::color_name::grey20),
    ("grey21", || a::color_name::grey21),
    ("grey22", || a::color_name::grey22),
    ("grey23", || a::color_name::grey23),
    ("grey24", || a::color_name::grey24),
    ("grey25", || a::color_name::grey25),
    ("grey26", || a::color_name::grey26),
    ("grey27", || a::color_name::grey27),
    ("grey28", || a::color_name::grey28),
    ("grey29", || a::color_name::grey29),
    ("grey3", || a::color_name::grey3),
    ("grey30", || a::color_name::grey30),
    ("grey31", || a::color_name::grey31),
    ("grey32", || a::color_name::grey32),
    ("grey33", || a::color_name::grey33),
    ("grey34", || a::color_name::grey34),
    ("grey35", || a::color_name::grey35),
    ("grey36", || a::color_name::grey36),
    ("grey37", || a::color_name::grey37),
    ("grey38", || a::color_name::grey38),
    ("grey39", || a::color_name::grey39),
    ("grey4", || a::color_name::grey4),
    ("grey40", || a::color_name::grey40),
    ("grey41", || a::color_name::grey41),
    ("grey42", || a::color_name::grey42),
    ("grey43", || a::color_name::grey43),
    ("grey44", || a::color_name::grey44),
    ("grey45", || a::color_name::grey45),
    ("grey46", || a::color_name::grey46),
    ("grey47", || a::color_name::grey47),
    ("grey48", || a::color_name::grey48),
    ("grey49", || a::color_name::grey49),
    ("grey5", || a::color_name::grey5),
    ("grey50", || a::color_name::grey50),
    ("grey51", || a::color_name::grey51),
    ("grey52", || a::color_name::grey52),
    ("grey53", || a::color_name::grey53),
    ("grey54", || a::color_name::grey54),
    ("grey55", || a::color_name::grey55),
    ("grey56", || a::color_name::grey56),
    ("grey57", || a::color_name::grey57),
    ("grey58", || a::color_name::grey58),
    ("grey59", || a::color_name::grey59),
    ("grey6", || a::color_name::grey6),
    ("grey60", || a::color_name::grey60),
    ("grey61", || a::color_name::grey61),
    ("grey62", || a::color_name::grey62),
    ("grey63", || a::color_name::grey63),
    ("grey64", || a::color_name::grey64),
    ("grey65", || a::color_name::grey65),
    ("grey66", || a::color_name::grey66),
    ("grey67", || a::color_name::grey67),
    ("grey68", || a::color_name::grey68),
    ("grey69", || a::color_name::grey69),
    ("grey7", || a::color_name::grey7),
    ("grey70", || a::color_name::grey70),
    ("grey71", || a::color_name::grey71),
    ("grey72", || a::color_name::grey72),
    ("grey73", || a::color_name::grey73),
    ("grey74", || a::color_name::grey74),
    ("grey75", || a::color_name::grey75),
    ("grey76", || a::color_name::grey76),
    ("grey77", || a::color_name::grey77),
    ("grey78", || a::color_name::grey78),
    ("grey79", || a::color_name::grey79),
    ("grey8", || a::color_name::grey8),
    ("grey80", || a::color_name::grey80),
    ("grey81", || a::color_name::grey81),
    ("grey82", || a::color_name::grey82),
    ("grey83", || a::color_name::grey83),
    ("grey84", || a::color_name::grey84),
    ("grey85", || a::color_name::grey85),
    ("grey86", || a::color_name::grey86),
    ("grey87", || a::color_name::grey87),
    ("grey88", || a::color_name::grey88),
    ("grey89", || a::color_name::grey89),
    ("grey9", || a::color_name::grey9),
    ("grey90", || a::color_name::grey90),
    ("grey91", || a::color_name::grey91),
    ("grey92", || a::color_name::grey92),
    ("grey93", || a::color_name::grey93),
    ("grey94", || a::color_name::grey94),
    ("grey95", || a::color_name::grey95),
    ("grey96", || a::color_name::grey96),
    ("grey97", || a::color_name::grey97),
    ("grey98", || a::color_name::grey98),
    ("grey99", || a::color_name::grey99),
    ("honeydew", || a::color_name::honeydew),
    ("honeydew1", || a::color_name::honeydew1),
    ("honeydew2", || a::color_name::honeydew2),
    ("honeydew3", || a::color_name::honeydew3),
    ("honeydew4", || a::color_name::honeydew4),
    ("hotpink", || a::color_name::hotpink),
    ("hotpink1", || a::color_name::hotpink1),
    ("hotpink2", || a::color_name::hotpink2),
    ("hotpink3", || a::color_name::hotpink3),
    ("hotpink4", || a::color_name::hotpink4),
    ("indianred", || a::color_name::indianred),
    ("indianred1", || a::color_name::indianred1),
    ("indianred2", || a::color_name::indianred2),
    ("indianred3", || a::color_name::indianred3),
    ("indianred4", || a::color_name::indianred4),
    ("indigo", || a::color_name::indigo),
    ("invis", || a::color_name::invis),
    ("ivory", || a::color_name::ivory),
    ("ivory1", || a::color_name::ivory1),
    ("ivory2", || a::color_name::ivory2),
    ("ivory3", || a::color_name::ivory3),
    ("ivory4", || a::color_name::ivory4),
    ("khaki", || a::color_name::khaki),
    ("khaki1", || a::color_name::khaki1),
    ("khaki2", || a::color_name::khaki2),
    ("khaki3", || a::color_name::khaki3),
    ("khaki4", || a::color_name::khaki4),
    ("lavender", || a::color_name::lavender),
    ("lavenderblush", || a::color_name::lavenderblush),
    ("lavenderblush1", || a::color_name::lavenderblush1),
    ("lavenderblush2", || a::color_name::lavenderblush2),
    ("lavenderblush3", || a::color_name::lavenderblush3),
    ("lavenderblush4", || a::color_name::lavenderblush4),
    ("lawngreen", || a::color_name::lawngreen),
    ("lemonchiffon", || a::color_name::lemonchiffon),
    ("lemonchiffon1", || a::color_name::lemonchiffon1),
    ("lemonchiffon2", || a::color_name::lemonchiffon2),
    ("lemonchiffon3", || a::color_name::lemonchiffon3),
    ("lemonchiffon4", || a::color_name::lemonchiffon4),
    ("lightblue", || a::color_name::lightblue),
    ("lightblue1", || a::color_name::lightblue1),
    ("lightblue2", || a::color_name::lightblue2),
    ("lightblue3", || a::color_name::lightblue3),
    ("lightblue4", || a::color_name::lightblue4),
    ("lightcoral", || a::color_name::lightcoral),
    ("lightcyan", || a::color_name::lightcyan),
    ("lightcyan1", || a::color_name::lightcyan1),
    ("lightcyan2", || a::color_name::lightcyan2),
    ("lightcyan3", || a::color_name::lightcyan3),
    ("lightcyan4", || a::color_name::lightcyan4),
    ("lightgoldenrod", || a::color_name::lightgoldenrod),
    ("lightgoldenrod1", || a::color_name::lightgoldenrod1),
    ("lightgoldenrod2", || a::color_name::lightgoldenrod2),
    ("lightgoldenrod3", || a::color_name::lightgoldenrod3),
    ("lightgoldenrod4", || a::color_name::lightgoldenrod4),
    ("lightgoldenrodyellow", || a::color_name::lightgoldenrodyellow),
    ("lightgray", || a::color_name::lightgray),
    ("lightgreen", || a::color_name::lightgreen),
    ("lightgrey", || a::color_name::lightgrey),
    ("lightpink", || a::color_name::lightpink),
    ("lightpink1", || a::color_name::lightpink1),
    ("lightpink2", || a::color_name::lightpink2),
    ("lightpink3", || a::color_name::lightpink3),
    ("lightpink4", || a::color_name::lightpink4),
    ("lightsalmon", || a::color_name::lightsalmon),
    ("lightsalmon1", || a::color_name::lightsalmon1),
    ("lightsalmon2", || a::color_name::lightsalmon2),
    ("lightsalmon3", || a::color_name::lightsalmon3),
    ("lightsalmon4", || a::color_name::lightsalmon4),
    ("lightseagreen", || a::color_name::lightseagreen),
    ("lightskyblue", || a::color_name::lightskyblue),
    ("lightskyblue1", || a::color_name::lightskyblue1),
    ("lightskyblue2", || a::color_name::lightskyblue2),
    ("lightskyblue3", || a::color_name::lightskyblue3),
    ("lightskyblue4", || a::color_name::lightskyblue4),
    ("lightslateblue", || a::color_name::lightslateblue),
    ("lightslategray", || a::color_name::lightslategray),
    ("lightslategrey", || a::color_name::lightslategrey),
    ("lightsteelblue", || a::color_name::lightsteelblue),
    ("lightsteelblue1", || a::color_name::lightsteelblue1),
    ("lightsteelblue2", || a::color_name::lightsteelblue2),
    ("lightsteelblue3", || a::color_name::lightsteelblue3),
    ("lightsteelblue4", || a::color_name::lightsteelblue4),
    ("lightyellow", || a::color_name::lightyellow),
    ("lightyellow1", || a::color_name::lightyellow1),
    ("lightyellow2", || a::color_name::lightyellow2),
    ("lightyellow3", || a::color_name::lightyellow3),
    ("lightyellow4", || a::color_name::lightyellow4),
    ("lime", || a::color_name::lime),
    ("limegreen", || a::color_name::limegreen),
    ("linen", || a::color_name::linen),
    ("magenta", || a::color_name::magenta),
    ("magenta1", || a::color_name::magenta1),
    ("magenta2", || a::color_name::magenta2),
    ("magenta3", || a::color_name::magenta3),
    ("magenta4", || a::color_name::magenta4),
    ("maroon", || a::color_name::maroon),
    ("maroon1", || a::color_name::maroon1),
    ("maroon2", || a::color_name::maroon2),
    ("maroon3", || a::color_name::maroon3),
    ("maroon4", || a::color_name::maroon4),
    ("mediumaquamarine", || a::color_name::mediumaquamarine),
    ("mediumblue", || a::color_name::mediumblue),
    ("mediumorchid", || a::color_name::mediumorchid),
    ("mediumorchid1", || a::color_name::mediumorchid1),
    ("mediumorchid2", || a::color_name::mediumorchid2),
    ("mediumorchid3", || a::color_name::mediumorchid3),
    ("mediumorchid4", || a::color_name::mediumorchid4),
    ("mediumpurple", || a::color_name::mediumpurple),
    ("mediumpurple1", || a::color_name::mediumpurple1),
    ("mediumpurple2", || a::color_name::mediumpurple2),
    ("mediumpurple3", || a::color_name::mediumpurple3),
    ("mediumpurple4", || a::color_name::mediumpurple4),
    ("mediumseagreen", || a::color_name::mediumseagreen),
    ("mediumslateblue", || a::color_name::mediumslateblue),
    ("mediumspringgreen", || a::color_name::mediumspringgreen),
    ("mediumturquoise", || a::color_name::mediumturquoise),
    ("mediumvioletred", || a::color_name::mediumvioletred),
    ("midnightblue", || a::color_name::midnightblue),
    ("mintcream", || a::color_name::mintcream),
    ("mistyrose", || a::color_name::mistyrose),
    ("mistyrose1", || a::color_name::mistyrose1),
    ("mistyrose2", || a::color_name::mistyrose2),
    ("mistyrose3", || a::color_name::mistyrose3),
    ("mistyrose4", || a::color_name::mistyrose4),
    ("moccasin", || a::color_name::moccasin),
    ("navajowhite", || a::color_name::navajowhite),
    ("navajowhite1", || a::color_name::navajowhite1),
    ("navajowhite2", || a::color_name::navajowhite2),
    ("navajowhite3", || a::color_name::navajowhite3),
    ("navajowhite4", || a::color_name::navajowhite4),
    ("navy", || a::color_name::navy),
    ("navyblue", || a::color_name::navyblue),
    ("none", || a::color_name::none),
    ("oldlace", || a::color_name::oldlace),
    ("olive", || a::color_name::olive),
    ("olivedrab", || a::color_name::olivedrab),
    ("olivedrab1", || a::color_name::olivedrab1),
    ("olivedrab2", || a::color_name::olivedrab2),
    ("olivedrab3", || a::color_name::olivedrab3),
    ("olivedrab4", || a::color_name::olivedrab4),
    ("orange", || a::color_name::orange),
    ("orange1", || a::color_name::orange1),
    ("orange2", || a::color_name::orange2),
    ("orange3", || a::color_name::orange3),
    ("orange4", || a::color_name::orange4),
    ("orangered", || a::color_name::orangered),
    ("orangered1", || a::color_name::orangered1),
    ("orangered2", || a::color_name::orangered2),
    ("orangered3", || a::color_name::orangered3),
    ("orangered4", || a::color_name::orangered4),
    ("orchid", || a::color_name::orchid),
    ("orchid1", || a::color_name::orchid1),
    ("orchid2", || a::color_name::orchid2),
    ("orchid3", || a::color_name::orchid3),
    ("orchid4", || a::color_name::orchid4),
    ("palegoldenrod", || a::color_name::palegoldenrod),
    ("palegreen", || a::color_name::palegreen),
    ("palegreen1", || a::color_name::palegreen1),
    ("palegreen2", || a::color_name::palegreen2),
    ("palegreen3", || a::color_name::palegreen3),
    ("palegreen4", || a::color_name::palegreen4),
    ("paleturquoise", || a::color_name::paleturquoise),
    ("paleturquoise1", || a::color_name::paleturquoise1),
    ("paleturquoise2", || a::color_name::paleturquoise2),
    ("paleturquoise3", || a::color_name::paleturquoise3),
    ("paleturquoise4", || a::color_name::paleturquoise4),
    ("palevioletred", || a::color_name::palevioletred),
    ("palevioletred1", || a::color_name::palevioletred1),
    ("palevioletred2", || a::color_name::palevioletred2),
    ("palevioletred3", || a::color_name::palevioletred3),
    ("palevioletred4", || a::color_name::palevioletred4),
    ("papayawhip", || a::color_name::papayawhip),
    ("peachpuff", || a::color_name::peachpuff),
    ("peachpuff1", || a::color_name::peachpuff1),
    ("peachpuff2", || a::color_name::peachpuff2),
    ("peachpuff3", || a::color_name::peachpuff3),
    ("peachpuff4", || a::color_name::peachpuff4),
    ("peru", || a::color_name::peru),
    ("pink", || a::color_name::pink),
    ("pink1", || a::color_name::pink1),
    ("pink2", || a::color_name::pink2),
    ("pink3", || a::color_name::pink3),
    ("pink4", || a::color_name::pink4),
    ("plum", || a::color_name::plum),
    ("plum1", || a::color_name::plum1),
    ("plum2", || a::color_name::plum2),
    ("plum3", || a::color_name::plum3),
    ("plum4", || a::color_name::plum4),
    ("powderblue", || a::color_name::powderblue),
    ("purple", || a::color_name::purple),
    ("purple1", || a::color_name::purple1),
    ("purple2", || a::color_name::purple2),
    ("purple3", || a::color_name::purple3),
    ("purple4", || a::color_name::purple4),
    ("rebeccapurple", || a::color_name::rebeccapurple),
    ("red", || a::color_name::red),
    ("red1", || a::color_name::red1),
    ("red2", || a::color_name::red2),
    ("red3", || a::color_name::red3),
    ("red4", || a::color_name::red4),
    ("rosybrown", || a::color_name::rosybrown),
    ("rosybrown1", || a::color_name::rosybrown1),
    ("rosybrown2", || a::color_name::rosybrown2),
    ("rosybrown3", || a::color_name::rosybrown3),
    ("rosybrown4", || a::color_name::rosybrown4),
    ("royalblue", || a::color_name::royalblue),
    ("royalblue1", || a::color_name::royalblue1),
    ("royalblue2", || a::color_name::royalblue2),
    ("royalblue3", || a::color_name::royalblue3),
    ("royalblue4", || a::color_name::royalblue4),
    ("saddlebrown", || a::color_name::saddlebrown),
    ("salmon", || a::color_name::salmon),
    ("salmon1", || a::color_name::salmon1),
    ("salmon2", || a::color_name::salmon2),
    ("salmon3", || a::color_name::salmon3),
    ("salmon4", || a::color_name::salmon4),
    ("sandybrown", || a::color_name::sandybrown),
    ("seagreen", || a::color_name::seagreen),
    ("seagreen1", || a::color_name::seagreen1),
    ("seagreen2", || a::color_name::seagreen2),
    ("seagreen3", || a::color_name::seagreen3),
    ("seagreen4", || a::color_name::seagreen4),
    ("seashell", || a::color_name::seashell),
    ("seashell1", || a::color_name::seashell1),
    ("seashell2", || a::color_name::seashell2),
    ("seashell3", || a::color_name::seashell3),
    ("seashell4", || a::color_name::seashell4),
    ("sienna", || a::color_name::sienna),
    ("sienna1", || a::color_name::sienna1),
    ("sienna2", || a::color_name::sienna2),
    ("sienna3", || a::color_name::sienna3),
    ("sienna4", || a::color_name::sienna4),
    ("silver", || a::color_name::silver),
    ("skyblue", || a::color_name::skyblue),
    ("skyblue1", || a::color_name::skyblue1),
    ("skyblue2", || a::color_name::skyblue2),
    ("skyblue3", || a::color_name::skyblue3),
    ("skyblue4", || a::color_name::skyblue4),
    ("slateblue", || a::color_name::slateblue),
    ("slateblue1", || a::color_name::slateblue1),
    ("slateblue2", || a::color_name::slateblue2),
    ("slateblue3", || a::color_name::slateblue3),
    ("slateblue4", || a::color_name::slateblue4),
    ("slategray", || a::color_name::slategray),
    ("slategray1", || a::color_name::slategray1),
    ("slategray2", || a::color_name::slategray2),
    ("slategray3", || a::color_name::slategray3),
    ("slategray4", || a::color_name::slategray4),
    ("slategrey", || a::color_name::slategrey),
    ("snow", || a::color_name::snow),
    ("snow1", || a::color_name::snow1),
    ("snow2", || a::color_name::snow2),
    ("snow3", || a::color_name::snow3),
    ("snow4", || a::color_name::snow4),
    ("springgreen", || a::color_name::springgreen),
    ("springgreen1", || a::color_name::springgreen1),
    ("springgreen2", || a::color_name::springgreen2),
    ("springgreen3", || a::color_name::springgreen3),
    ("springgreen4", || a::color_name::springgreen4),
    ("steelblue", || a::color_name::steelblue),
    ("steelblue1", || a::color_name::steelblue1),
    ("steelblue2", || a::color_name::steelblue2),
    ("steelblue3", || a::color_name::steelblue3),
    ("steelblue4", || a::color_name::steelblue4),
    ("tan", || a::color_name::tan),
    ("tan1", || a::color_name::tan1),
    ("tan2", || a::color_name::tan2),
    ("tan3", || a::color_name::tan3),
    ("tan4", || a::color_name::tan4),
    ("teal", || a::color_name::teal),
    ("thistle", || a::color_name::thistle),
    ("thistle1", || a::color_name::thistle1),
    ("thistle2", || a::color_name::thistle2),
    ("thistle3", || a::color_name::thistle3),
    ("thistle4", || a::color_name::thistle4),
    ("tomato", || a::color_name::tomato),
    ("tomato1", || a::color_name::tomato1),
    ("tomato2", || a::color_name::tomato2),
    ("tomato3", || a::color_name::tomato3),
    ("tomato4", || a::color_name::tomato4),
    ("transparent", || a::color_name::transparent),
    ("turquoise", || a::color_name::turquoise),
    ("turquoise1", || a::color_name::turquoise1),
    ("turquoise2", || a::color_name::turquoise2),
    ("turquoise3", || a::color_name::turquoise3),
    ("turquoise4", || a::color_name::turquoise4),
    ("violet", || a::color_name::violet),
    ("violetred", || a::color_name::violetred),
    ("violetred1", || a::color_name::violetred1),
    ("violetred2", || a::color_name::violetred2),
    ("violetred3", || a::color_name::violetred3),
    ("violetred4", || a::color_name::violetred4),
    ("webgray", || a::color_name::webgray),
    ("webgreen", || a::color_name::webgreen),
    ("webgrey", || a::color_name::webgrey),
    ("webmaroon", || a::color_name::webmaroon),
    ("webpurple", || a::color_name::webpurple),
    ("wheat", || a::color_name::wheat),
    ("wheat1", || a::color_name::wheat1),
    ("wheat2", || a::color_name::wheat2),
    ("wheat3", || a::color_name::wheat3),
    ("wheat4", || a::color_name::wheat4),
    ("white", || a::color_name::white),
    ("whitesmoke", || a::color_name::whitesmoke),
    ("x11gray", || a::color_name::x11gray),
    ("x11green", || a::color_name::x11green),
    ("x11grey", || a::color_name::x11grey),
    ("x11maroon", || a::color_name::x11maroon),
    ("x11purple", || a::color_name::x11purple),
    ("yellow", || a::color_name::yellow),
    ("yellow1", || a::color_name::yellow1),
    ("yellow2", || a::color_name::yellow2),
    ("yellow3", || a::color_name::yellow3),
    ("yellow4", || a::color_name::yellow4),
    ("yellowgreen", || a::color_name::yellowgreen),
];
