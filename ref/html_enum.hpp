#pragma once
// The enumerated names of elements and attributes and how they are spelled.
#include <wordring/whatwg/html/parsing/atom_defs.hpp>
namespace ref
{
	struct TagSpelling { char32_t const* s; wordring::whatwg::html::parsing::tag_name e; };
	struct AttrSpelling { char32_t const* s; wordring::whatwg::html::parsing::attribute_name e; };
	using wordring::whatwg::html::parsing::tag_name;
	using wordring::whatwg::html::parsing::attribute_name;
	inline TagSpelling const all_tags[] = {
		{ U"a", tag_name::A }, { U"abbr", tag_name::Abbr }, { U"abs", tag_name::Abs }, { U"address", tag_name::Address }, { U"altGlyph", tag_name::AltGlyph },
		{ U"altGlyphDef", tag_name::AltGlyphDef }, { U"altGlyphItem", tag_name::AltGlyphItem }, { U"altglyph", tag_name::Altglyph },
		{ U"altglyphdef", tag_name::Altglyphdef }, { U"altglyphitem", tag_name::Altglyphitem }, { U"and", tag_name::And }, { U"animate", tag_name::Animate },
		{ U"animateColor", tag_name::AnimateColor }, { U"animateMotion", tag_name::AnimateMotion }, { U"animateTransform", tag_name::AnimateTransform },
		{ U"animatecolor", tag_name::Animatecolor }, { U"animatemotion", tag_name::Animatemotion }, { U"animatetransform", tag_name::Animatetransform },
		{ U"annotation", tag_name::Annotation }, { U"annotation-xml", tag_name::Annotation_xml }, { U"applet", tag_name::Applet }, { U"apply", tag_name::Apply },
		{ U"approx", tag_name::Approx }, { U"arccos", tag_name::Arccos }, { U"arccosh", tag_name::Arccosh }, { U"arccot", tag_name::Arccot },
		{ U"arccoth", tag_name::Arccoth }, { U"arccsc", tag_name::Arccsc }, { U"arccsch", tag_name::Arccsch }, { U"arcsec", tag_name::Arcsec },
		{ U"arcsech", tag_name::Arcsech }, { U"arcsin", tag_name::Arcsin }, { U"arcsinh", tag_name::Arcsinh }, { U"arctan", tag_name::Arctan },
		{ U"arctanh", tag_name::Arctanh }, { U"area", tag_name::Area }, { U"arg", tag_name::Arg }, { U"article", tag_name::Article }, { U"aside", tag_name::Aside },
		{ U"audio", tag_name::Audio }, { U"b", tag_name::B }, { U"base", tag_name::Base }, { U"basefont", tag_name::Basefont }, { U"bdi", tag_name::Bdi },
		{ U"bdo", tag_name::Bdo }, { U"bgsound", tag_name::Bgsound }, { U"big", tag_name::Big }, { U"bind", tag_name::Bind },
		{ U"blockquote", tag_name::Blockquote }, { U"body", tag_name::Body }, { U"br", tag_name::Br }, { U"button", tag_name::Button }, { U"bvar", tag_name::Bvar },
		{ U"canvas", tag_name::Canvas }, { U"caption", tag_name::Caption }, { U"card", tag_name::Card }, { U"cartesianproduct", tag_name::Cartesianproduct },
		{ U"cbytes", tag_name::Cbytes }, { U"ceiling", tag_name::Ceiling }, { U"center", tag_name::Center }, { U"cerror", tag_name::Cerror },
		{ U"ci", tag_name::Ci }, { U"circle", tag_name::Circle }, { U"cite", tag_name::Cite }, { U"clipPath", tag_name::ClipPath },
		{ U"clippath", tag_name::Clippath }, { U"cn", tag_name::Cn }, { U"code", tag_name::Code }, { U"codomain", tag_name::Codomain }, { U"col", tag_name::Col },
		{ U"colgroup", tag_name::Colgroup }, { U"complexes", tag_name::Complexes }, { U"compose", tag_name::Compose }, { U"condition", tag_name::Condition },
		{ U"conjugate", tag_name::Conjugate }, { U"cos", tag_name::Cos }, { U"cosh", tag_name::Cosh }, { U"cot", tag_name::Cot }, { U"coth", tag_name::Coth },
		{ U"cs", tag_name::Cs }, { U"csc", tag_name::Csc }, { U"csch", tag_name::Csch }, { U"csymbol", tag_name::Csymbol }, { U"curl", tag_name::Curl },
		{ U"data", tag_name::Data }, { U"datalist", tag_name::Datalist }, { U"dd", tag_name::Dd }, { U"declare", tag_name::Declare }, { U"defs", tag_name::Defs },
		{ U"degree", tag_name::Degree }, { U"del", tag_name::Del }, { U"desc", tag_name::Desc }, { U"details", tag_name::Details },
		{ U"determinant", tag_name::Determinant }, { U"dfn", tag_name::Dfn }, { U"dialog", tag_name::Dialog }, { U"diff", tag_name::Diff },
		{ U"dir", tag_name::Dir }, { U"discard", tag_name::Discard }, { U"div", tag_name::Div }, { U"divergence", tag_name::Divergence },
		{ U"divide", tag_name::Divide }, { U"dl", tag_name::Dl }, { U"domain", tag_name::Domain }, { U"domainofapplication", tag_name::Domainofapplication },
		{ U"dt", tag_name::Dt }, { U"ellipse", tag_name::Ellipse }, { U"em", tag_name::Em }, { U"embed", tag_name::Embed }, { U"emptyset", tag_name::Emptyset },
		{ U"eq", tag_name::Eq }, { U"equivalent", tag_name::Equivalent }, { U"eulergamma", tag_name::Eulergamma }, { U"exists", tag_name::Exists },
		{ U"exp", tag_name::Exp }, { U"exponentiale", tag_name::Exponentiale }, { U"factorial", tag_name::Factorial }, { U"factorof", tag_name::Factorof },
		{ U"false", tag_name::False }, { U"feBlend", tag_name::FeBlend }, { U"feColorMatrix", tag_name::FeColorMatrix },
		{ U"feComponentTransfer", tag_name::FeComponentTransfer }, { U"feComposite", tag_name::FeComposite }, { U"feConvolveMatrix", tag_name::FeConvolveMatrix },
		{ U"feDiffuseLighting", tag_name::FeDiffuseLighting }, { U"feDisplacementMap", tag_name::FeDisplacementMap },
		{ U"feDistantLight", tag_name::FeDistantLight }, { U"feDropShadow", tag_name::FeDropShadow }, { U"feFlood", tag_name::FeFlood },
		{ U"feFuncA", tag_name::FeFuncA }, { U"feFuncB", tag_name::FeFuncB }, { U"feFuncG", tag_name::FeFuncG }, { U"feFuncR", tag_name::FeFuncR },
		{ U"feGaussianBlur", tag_name::FeGaussianBlur }, { U"feImage", tag_name::FeImage }, { U"feMerge", tag_name::FeMerge },
		{ U"feMergeNode", tag_name::FeMergeNode }, { U"feMorphology", tag_name::FeMorphology }, { U"feOffset", tag_name::FeOffset },
		{ U"fePointLight", tag_name::FePointLight }, { U"feSpecularLighting", tag_name::FeSpecularLighting }, { U"feSpotLight", tag_name::FeSpotLight },
		{ U"feTile", tag_name::FeTile }, { U"feTurbulence", tag_name::FeTurbulence }, { U"feblend", tag_name::Feblend },
		{ U"fecolormatrix", tag_name::Fecolormatrix }, { U"fecomponenttransfer", tag_name::Fecomponenttransfer }, { U"fecomposite", tag_name::Fecomposite },
		{ U"feconvolvematrix", tag_name::Feconvolvematrix }, { U"fediffuselighting", tag_name::Fediffuselighting },
		{ U"fedisplacementmap", tag_name::Fedisplacementmap }, { U"fedistantlight", tag_name::Fedistantlight }, { U"fedropshadow", tag_name::Fedropshadow },
		{ U"feflood", tag_name::Feflood }, { U"fefunca", tag_name::Fefunca }, { U"fefuncb", tag_name::Fefuncb }, { U"fefuncg", tag_name::Fefuncg },
		{ U"fefuncr", tag_name::Fefuncr }, { U"fegaussianblur", tag_name::Fegaussianblur }, { U"feimage", tag_name::Feimage }, { U"femerge", tag_name::Femerge },
		{ U"femergenode", tag_name::Femergenode }, { U"femorphology", tag_name::Femorphology }, { U"feoffset", tag_name::Feoffset },
		{ U"fepointlight", tag_name::Fepointlight }, { U"fespecularlighting", tag_name::Fespecularlighting }, { U"fespotlight", tag_name::Fespotlight },
		{ U"fetile", tag_name::Fetile }, { U"feturbulence", tag_name::Feturbulence }, { U"fieldset", tag_name::Fieldset }, { U"figcaption", tag_name::Figcaption },
		{ U"figure", tag_name::Figure }, { U"filter", tag_name::Filter }, { U"floor", tag_name::Floor }, { U"fn", tag_name::Fn }, { U"font", tag_name::Font },
		{ U"footer", tag_name::Footer }, { U"forall", tag_name::Forall }, { U"foreignObject", tag_name::ForeignObject },
		{ U"foreignobject", tag_name::Foreignobject }, { U"form", tag_name::Form }, { U"frame", tag_name::Frame }, { U"frameset", tag_name::Frameset },
		{ U"g", tag_name::G }, { U"gcd", tag_name::Gcd }, { U"geq", tag_name::Geq }, { U"glyphRef", tag_name::GlyphRef }, { U"glyphref", tag_name::Glyphref },
		{ U"grad", tag_name::Grad }, { U"gt", tag_name::Gt }, { U"h1", tag_name::H1 }, { U"h2", tag_name::H2 }, { U"h3", tag_name::H3 }, { U"h4", tag_name::H4 },
		{ U"h5", tag_name::H5 }, { U"h6", tag_name::H6 }, { U"head", tag_name::Head }, { U"header", tag_name::Header }, { U"hgroup", tag_name::Hgroup },
		{ U"hr", tag_name::Hr }, { U"html", tag_name::Html }, { U"i", tag_name::I }, { U"ident", tag_name::Ident }, { U"iframe", tag_name::Iframe },
		{ U"image", tag_name::Image }, { U"imaginary", tag_name::Imaginary }, { U"imaginaryi", tag_name::Imaginaryi }, { U"img", tag_name::Img },
		{ U"implies", tag_name::Implies }, { U"in", tag_name::In }, { U"infinity", tag_name::Infinity }, { U"input", tag_name::Input }, { U"ins", tag_name::Ins },
		{ U"int", tag_name::Int }, { U"integers", tag_name::Integers }, { U"intersect", tag_name::Intersect }, { U"interval", tag_name::Interval },
		{ U"inverse", tag_name::Inverse }, { U"kbd", tag_name::Kbd }, { U"keygen", tag_name::Keygen }, { U"label", tag_name::Label },
		{ U"lambda", tag_name::Lambda }, { U"laplacian", tag_name::Laplacian }, { U"lcm", tag_name::Lcm }, { U"legend", tag_name::Legend },
		{ U"leq", tag_name::Leq }, { U"li", tag_name::Li }, { U"limit", tag_name::Limit }, { U"line", tag_name::Line },
		{ U"linearGradient", tag_name::LinearGradient }, { U"lineargradient", tag_name::Lineargradient }, { U"link", tag_name::Link }, { U"list", tag_name::List },
		{ U"listing", tag_name::Listing }, { U"ln", tag_name::Ln }, { U"log", tag_name::Log }, { U"logbase", tag_name::Logbase },
		{ U"lowlimit", tag_name::Lowlimit }, { U"lt", tag_name::Lt }, { U"maction", tag_name::Maction }, { U"main", tag_name::Main },
		{ U"maligngroup", tag_name::Maligngroup }, { U"malignmark", tag_name::Malignmark }, { U"map", tag_name::Map }, { U"mark", tag_name::Mark },
		{ U"marker", tag_name::Marker }, { U"marquee", tag_name::Marquee }, { U"mask", tag_name::Mask }, { U"math", tag_name::Math },
		{ U"matrix", tag_name::Matrix }, { U"matrixrow", tag_name::Matrixrow }, { U"max", tag_name::Max }, { U"mean", tag_name::Mean },
		{ U"median", tag_name::Median }, { U"menclose", tag_name::Menclose }, { U"menu", tag_name::Menu }, { U"merror", tag_name::Merror },
		{ U"meta", tag_name::Meta }, { U"metadata", tag_name::Metadata }, { U"meter", tag_name::Meter }, { U"mfenced", tag_name::Mfenced },
		{ U"mfrac", tag_name::Mfrac }, { U"mglyph", tag_name::Mglyph }, { U"mi", tag_name::Mi }, { U"min", tag_name::Min }, { U"minus", tag_name::Minus },
		{ U"mlabeledtr", tag_name::Mlabeledtr }, { U"mlongdiv", tag_name::Mlongdiv }, { U"mmultiscripts", tag_name::Mmultiscripts }, { U"mn", tag_name::Mn },
		{ U"mo", tag_name::Mo }, { U"mode", tag_name::Mode }, { U"moment", tag_name::Moment }, { U"momentabout", tag_name::Momentabout },
		{ U"mover", tag_name::Mover }, { U"mpadded", tag_name::Mpadded }, { U"mpath", tag_name::Mpath }, { U"mphantom", tag_name::Mphantom },
		{ U"mprescripts", tag_name::Mprescripts }, { U"mroot", tag_name::Mroot }, { U"mrow", tag_name::Mrow }, { U"ms", tag_name::Ms },
		{ U"mscarries", tag_name::Mscarries }, { U"mscarry", tag_name::Mscarry }, { U"msgroup", tag_name::Msgroup }, { U"msline", tag_name::Msline },
		{ U"mspace", tag_name::Mspace }, { U"msqrt", tag_name::Msqrt }, { U"msrow", tag_name::Msrow }, { U"mstack", tag_name::Mstack },
		{ U"mstyle", tag_name::Mstyle }, { U"msub", tag_name::Msub }, { U"msubsup", tag_name::Msubsup }, { U"msup", tag_name::Msup },
		{ U"mtable", tag_name::Mtable }, { U"mtd", tag_name::Mtd }, { U"mtext", tag_name::Mtext }, { U"mtr", tag_name::Mtr }, { U"munder", tag_name::Munder },
		{ U"munderover", tag_name::Munderover }, { U"naturalnumbers", tag_name::Naturalnumbers }, { U"nav", tag_name::Nav }, { U"neq", tag_name::Neq },
		{ U"nobr", tag_name::Nobr }, { U"noembed", tag_name::Noembed }, { U"noframes", tag_name::Noframes }, { U"none", tag_name::None },
		{ U"noscript", tag_name::Noscript }, { U"not", tag_name::Not }, { U"notanumber", tag_name::Notanumber }, { U"notin", tag_name::Notin },
		{ U"notprsubset", tag_name::Notprsubset }, { U"notsubset", tag_name::Notsubset }, { U"object", tag_name::Object }, { U"ol", tag_name::Ol },
		{ U"optgroup", tag_name::Optgroup }, { U"option", tag_name::Option }, { U"or", tag_name::Or }, { U"otherwise", tag_name::Otherwise },
		{ U"outerproduct", tag_name::Outerproduct }, { U"output", tag_name::Output }, { U"p", tag_name::P }, { U"param", tag_name::Param },
		{ U"partialdiff", tag_name::Partialdiff }, { U"path", tag_name::Path }, { U"pattern", tag_name::Pattern }, { U"pi", tag_name::Pi },
		{ U"picture", tag_name::Picture }, { U"piece", tag_name::Piece }, { U"piecewise", tag_name::Piecewise }, { U"plaintext", tag_name::Plaintext },
		{ U"plus", tag_name::Plus }, { U"polygon", tag_name::Polygon }, { U"polyline", tag_name::Polyline }, { U"power", tag_name::Power },
		{ U"pre", tag_name::Pre }, { U"primes", tag_name::Primes }, { U"product", tag_name::Product }, { U"progress", tag_name::Progress },
		{ U"prsubset", tag_name::Prsubset }, { U"q", tag_name::Q }, { U"quotient", tag_name::Quotient }, { U"radialGradient", tag_name::RadialGradient },
		{ U"radialgradient", tag_name::Radialgradient }, { U"rationals", tag_name::Rationals }, { U"rb", tag_name::Rb }, { U"real", tag_name::Real },
		{ U"reals", tag_name::Reals }, { U"rect", tag_name::Rect }, { U"reln", tag_name::Reln }, { U"rem", tag_name::Rem }, { U"root", tag_name::Root },
		{ U"rp", tag_name::Rp }, { U"rt", tag_name::Rt }, { U"rtc", tag_name::Rtc }, { U"ruby", tag_name::Ruby }, { U"s", tag_name::S }, { U"samp", tag_name::Samp },
		{ U"scalarproduct", tag_name::Scalarproduct }, { U"script", tag_name::Script }, { U"sdev", tag_name::Sdev }, { U"sec", tag_name::Sec },
		{ U"sech", tag_name::Sech }, { U"section", tag_name::Section }, { U"select", tag_name::Select }, { U"selector", tag_name::Selector },
		{ U"semantics", tag_name::Semantics }, { U"sep", tag_name::Sep }, { U"set", tag_name::Set }, { U"setdiff", tag_name::Setdiff },
		{ U"share", tag_name::Share }, { U"sin", tag_name::Sin }, { U"sinh", tag_name::Sinh }, { U"slot", tag_name::Slot }, { U"small", tag_name::Small },
		{ U"source", tag_name::Source }, { U"span", tag_name::Span }, { U"stop", tag_name::Stop }, { U"strike", tag_name::Strike }, { U"strong", tag_name::Strong },
		{ U"style", tag_name::Style }, { U"sub", tag_name::Sub }, { U"subset", tag_name::Subset }, { U"sum", tag_name::Sum }, { U"summary", tag_name::Summary },
		{ U"sup", tag_name::Sup }, { U"svg", tag_name::Svg }, { U"switch", tag_name::Switch }, { U"symbol", tag_name::Symbol }, { U"table", tag_name::Table },
		{ U"tan", tag_name::Tan }, { U"tanh", tag_name::Tanh }, { U"tbody", tag_name::Tbody }, { U"td", tag_name::Td }, { U"template", tag_name::Template },
		{ U"tendsto", tag_name::Tendsto }, { U"text", tag_name::Text }, { U"textPath", tag_name::TextPath }, { U"textarea", tag_name::Textarea },
		{ U"textpath", tag_name::Textpath }, { U"tfoot", tag_name::Tfoot }, { U"th", tag_name::Th }, { U"thead", tag_name::Thead }, { U"time", tag_name::Time },
		{ U"times", tag_name::Times }, { U"title", tag_name::Title }, { U"tr", tag_name::Tr }, { U"track", tag_name::Track }, { U"transpose", tag_name::Transpose },
		{ U"true", tag_name::True }, { U"tspan", tag_name::Tspan }, { U"tt", tag_name::Tt }, { U"u", tag_name::U }, { U"ul", tag_name::Ul },
		{ U"union", tag_name::Union }, { U"uplimit", tag_name::Uplimit }, { U"use", tag_name::Use }, { U"var", tag_name::Var }, { U"variance", tag_name::Variance },
		{ U"vector", tag_name::Vector }, { U"vectorproduct", tag_name::Vectorproduct }, { U"video", tag_name::Video }, { U"view", tag_name::View },
		{ U"wbr", tag_name::Wbr }, { U"xmp", tag_name::Xmp }, { U"xor", tag_name::Xor },
	};
	inline AttrSpelling const all_attributes[] = {
		{ U"abbr", attribute_name::Abbr }, { U"accent", attribute_name::Accent }, { U"accentunder", attribute_name::Accentunder },
		{ U"accept", attribute_name::Accept }, { U"accept-charset", attribute_name::Accept_charset }, { U"accesskey", attribute_name::Accesskey },
		{ U"accumulate", attribute_name::Accumulate }, { U"action", attribute_name::Action }, { U"actiontype", attribute_name::Actiontype },
		{ U"actuate", attribute_name::Actuate }, { U"additive", attribute_name::Additive }, { U"align", attribute_name::Align },
		{ U"alignment-baseline", attribute_name::Alignment_baseline }, { U"alignmentscope", attribute_name::Alignmentscope }, { U"allow", attribute_name::Allow },
		{ U"allowfullscreen", attribute_name::Allowfullscreen }, { U"allowpaymentrequest", attribute_name::Allowpaymentrequest }, { U"alt", attribute_name::Alt },
		{ U"altimg", attribute_name::Altimg }, { U"altimg-height", attribute_name::Altimg_height }, { U"altimg-valign", attribute_name::Altimg_valign },
		{ U"altimg-width", attribute_name::Altimg_width }, { U"alttext", attribute_name::Alttext }, { U"amplitude", attribute_name::Amplitude },
		{ U"annotation-xml", attribute_name::Annotation_xml }, { U"arcrole", attribute_name::Arcrole },
		{ U"aria-activedescendant", attribute_name::Aria_activedescendant }, { U"aria-atomic", attribute_name::Aria_atomic },
		{ U"aria-autocomplete", attribute_name::Aria_autocomplete }, { U"aria-busy", attribute_name::Aria_busy }, { U"aria-checked", attribute_name::Aria_checked },
		{ U"aria-colcount", attribute_name::Aria_colcount }, { U"aria-colindex", attribute_name::Aria_colindex }, { U"aria-colspan", attribute_name::Aria_colspan },
		{ U"aria-controls", attribute_name::Aria_controls }, { U"aria-current", attribute_name::Aria_current },
		{ U"aria-describedby", attribute_name::Aria_describedby }, { U"aria-details", attribute_name::Aria_details },
		{ U"aria-disabled", attribute_name::Aria_disabled }, { U"aria-dropeffect", attribute_name::Aria_dropeffect },
		{ U"aria-errormessage", attribute_name::Aria_errormessage }, { U"aria-expanded", attribute_name::Aria_expanded },
		{ U"aria-flowto", attribute_name::Aria_flowto }, { U"aria-grabbed", attribute_name::Aria_grabbed }, { U"aria-haspopup", attribute_name::Aria_haspopup },
		{ U"aria-hidden", attribute_name::Aria_hidden }, { U"aria-invalid", attribute_name::Aria_invalid },
		{ U"aria-keyshortcuts", attribute_name::Aria_keyshortcuts }, { U"aria-label", attribute_name::Aria_label },
		{ U"aria-labelledby", attribute_name::Aria_labelledby }, { U"aria-level", attribute_name::Aria_level }, { U"aria-live", attribute_name::Aria_live },
		{ U"aria-modal", attribute_name::Aria_modal }, { U"aria-multiline", attribute_name::Aria_multiline },
		{ U"aria-multiselectable", attribute_name::Aria_multiselectable }, { U"aria-orientation", attribute_name::Aria_orientation },
		{ U"aria-owns", attribute_name::Aria_owns }, { U"aria-placeholder", attribute_name::Aria_placeholder }, { U"aria-posinset", attribute_name::Aria_posinset },
		{ U"aria-pressed", attribute_name::Aria_pressed }, { U"aria-readonly", attribute_name::Aria_readonly }, { U"aria-relevant", attribute_name::Aria_relevant },
		{ U"aria-required", attribute_name::Aria_required }, { U"aria-roledescription", attribute_name::Aria_roledescription },
		{ U"aria-rowcount", attribute_name::Aria_rowcount }, { U"aria-rowindex", attribute_name::Aria_rowindex }, { U"aria-rowspan", attribute_name::Aria_rowspan },
		{ U"aria-selected", attribute_name::Aria_selected }, { U"aria-setsize", attribute_name::Aria_setsize }, { U"aria-sort", attribute_name::Aria_sort },
		{ U"aria-valuemax", attribute_name::Aria_valuemax }, { U"aria-valuemin", attribute_name::Aria_valuemin },
		{ U"aria-valuenow", attribute_name::Aria_valuenow }, { U"aria-valuetext", attribute_name::Aria_valuetext }, { U"as", attribute_name::As },
		{ U"async", attribute_name::Async }, { U"attributeName", attribute_name::AttributeName }, { U"attributeType", attribute_name::AttributeType },
		{ U"attributename", attribute_name::Attributename }, { U"attributetype", attribute_name::Attributetype },
		{ U"autocapitalize", attribute_name::Autocapitalize }, { U"autocomplete", attribute_name::Autocomplete }, { U"autofocus", attribute_name::Autofocus },
		{ U"autoplay", attribute_name::Autoplay }, { U"azimuth", attribute_name::Azimuth }, { U"background", attribute_name::Background },
		{ U"base", attribute_name::Base }, { U"baseFrequency", attribute_name::BaseFrequency }, { U"baseProfile", attribute_name::BaseProfile },
		{ U"basefrequency", attribute_name::Basefrequency }, { U"baseline", attribute_name::Baseline }, { U"baseline-shift", attribute_name::Baseline_shift },
		{ U"baseprofile", attribute_name::Baseprofile }, { U"begin", attribute_name::Begin }, { U"bevelled", attribute_name::Bevelled },
		{ U"bias", attribute_name::Bias }, { U"by", attribute_name::By }, { U"calcMode", attribute_name::CalcMode }, { U"calcmode", attribute_name::Calcmode },
		{ U"cd", attribute_name::Cd }, { U"cdgroup", attribute_name::Cdgroup }, { U"charalign", attribute_name::Charalign }, { U"charset", attribute_name::Charset },
		{ U"charspacing", attribute_name::Charspacing }, { U"checked", attribute_name::Checked }, { U"cite", attribute_name::Cite },
		{ U"class", attribute_name::Class }, { U"clip", attribute_name::Clip }, { U"clip-path", attribute_name::Clip_path },
		{ U"clip-rule", attribute_name::Clip_rule }, { U"clipPathUnits", attribute_name::ClipPathUnits }, { U"clippathunits", attribute_name::Clippathunits },
		{ U"close", attribute_name::Close }, { U"closure", attribute_name::Closure }, { U"color", attribute_name::Color },
		{ U"color-interpolation", attribute_name::Color_interpolation }, { U"color-interpolation-filters", attribute_name::Color_interpolation_filters },
		{ U"cols", attribute_name::Cols }, { U"colspan", attribute_name::Colspan }, { U"columnalign", attribute_name::Columnalign },
		{ U"columnalignment", attribute_name::Columnalignment }, { U"columnlines", attribute_name::Columnlines },
		{ U"columnspacing", attribute_name::Columnspacing }, { U"columnspan", attribute_name::Columnspan }, { U"columnwidth", attribute_name::Columnwidth },
		{ U"content", attribute_name::Content }, { U"contenteditable", attribute_name::Contenteditable }, { U"controls", attribute_name::Controls },
		{ U"coords", attribute_name::Coords }, { U"crossorigin", attribute_name::Crossorigin }, { U"crossout", attribute_name::Crossout },
		{ U"cursor", attribute_name::Cursor }, { U"cx", attribute_name::Cx }, { U"cy", attribute_name::Cy }, { U"data", attribute_name::Data },
		{ U"datetime", attribute_name::Datetime }, { U"decimalpoint", attribute_name::Decimalpoint }, { U"decoding", attribute_name::Decoding },
		{ U"default", attribute_name::Default }, { U"defer", attribute_name::Defer }, { U"definitionURL", attribute_name::DefinitionURL },
		{ U"definitionurl", attribute_name::Definitionurl }, { U"denomalign", attribute_name::Denomalign }, { U"depth", attribute_name::Depth },
		{ U"diffuseConstant", attribute_name::DiffuseConstant }, { U"diffuseconstant", attribute_name::Diffuseconstant }, { U"dir", attribute_name::Dir },
		{ U"direction", attribute_name::Direction }, { U"dirname", attribute_name::Dirname }, { U"disabled", attribute_name::Disabled },
		{ U"display", attribute_name::Display }, { U"displaystyle", attribute_name::Displaystyle }, { U"divisor", attribute_name::Divisor },
		{ U"dominant-baseline", attribute_name::Dominant_baseline }, { U"download", attribute_name::Download }, { U"draggable", attribute_name::Draggable },
		{ U"dur", attribute_name::Dur }, { U"dx", attribute_name::Dx }, { U"dy", attribute_name::Dy }, { U"edge", attribute_name::Edge },
		{ U"edgeMode", attribute_name::EdgeMode }, { U"edgemode", attribute_name::Edgemode }, { U"elevation", attribute_name::Elevation },
		{ U"encoding", attribute_name::Encoding }, { U"enctype", attribute_name::Enctype }, { U"end", attribute_name::End },
		{ U"enterkeyhint", attribute_name::Enterkeyhint }, { U"equalcolumns", attribute_name::Equalcolumns }, { U"equalrows", attribute_name::Equalrows },
		{ U"exponent", attribute_name::Exponent }, { U"fence", attribute_name::Fence }, { U"fill", attribute_name::Fill },
		{ U"fill-opacity", attribute_name::Fill_opacity }, { U"fill-rule", attribute_name::Fill_rule }, { U"filter", attribute_name::Filter },
		{ U"filterUnits", attribute_name::FilterUnits }, { U"filterunits", attribute_name::Filterunits }, { U"flood-color", attribute_name::Flood_color },
		{ U"flood-opacity", attribute_name::Flood_opacity }, { U"font-family", attribute_name::Font_family }, { U"font-size", attribute_name::Font_size },
		{ U"font-size-adjust", attribute_name::Font_size_adjust }, { U"font-stretch", attribute_name::Font_stretch }, { U"font-style", attribute_name::Font_style },
		{ U"font-variant", attribute_name::Font_variant }, { U"font-weight", attribute_name::Font_weight }, { U"fontfamily", attribute_name::Fontfamily },
		{ U"fontsize", attribute_name::Fontsize }, { U"fontstyle", attribute_name::Fontstyle }, { U"fontweight", attribute_name::Fontweight },
		{ U"for", attribute_name::For }, { U"form", attribute_name::Form }, { U"formaction", attribute_name::Formaction },
		{ U"formenctype", attribute_name::Formenctype }, { U"formmethod", attribute_name::Formmethod }, { U"formnovalidate", attribute_name::Formnovalidate },
		{ U"formtarget", attribute_name::Formtarget }, { U"fr", attribute_name::Fr }, { U"frame", attribute_name::Frame },
		{ U"framespacing", attribute_name::Framespacing }, { U"from", attribute_name::From }, { U"fx", attribute_name::Fx }, { U"fy", attribute_name::Fy },
		{ U"glyph-orientation-horizontal", attribute_name::Glyph_orientation_horizontal },
		{ U"glyph-orientation-vertical", attribute_name::Glyph_orientation_vertical }, { U"glyphRef", attribute_name::GlyphRef },
		{ U"glyphref", attribute_name::Glyphref }, { U"gradientTransform", attribute_name::GradientTransform }, { U"gradientUnits", attribute_name::GradientUnits },
		{ U"gradienttransform", attribute_name::Gradienttransform }, { U"gradientunits", attribute_name::Gradientunits },
		{ U"groupalign", attribute_name::Groupalign }, { U"headers", attribute_name::Headers }, { U"height", attribute_name::Height },
		{ U"hidden", attribute_name::Hidden }, { U"high", attribute_name::High }, { U"href", attribute_name::Href }, { U"hreflang", attribute_name::Hreflang },
		{ U"http-equiv", attribute_name::Http_equiv }, { U"id", attribute_name::Id }, { U"image-rendering", attribute_name::Image_rendering },
		{ U"imagesizes", attribute_name::Imagesizes }, { U"imagesrcset", attribute_name::Imagesrcset }, { U"in", attribute_name::In },
		{ U"in2", attribute_name::In2 }, { U"indentalign", attribute_name::Indentalign }, { U"indentalignfirst", attribute_name::Indentalignfirst },
		{ U"indentalignlast", attribute_name::Indentalignlast }, { U"indentshift", attribute_name::Indentshift },
		{ U"indentshiftfirst", attribute_name::Indentshiftfirst }, { U"indentshiftlast", attribute_name::Indentshiftlast },
		{ U"indenttarget", attribute_name::Indenttarget }, { U"index", attribute_name::Index }, { U"infixlinebreakstyle", attribute_name::Infixlinebreakstyle },
		{ U"inputmode", attribute_name::Inputmode }, { U"integer", attribute_name::Integer }, { U"integrity", attribute_name::Integrity },
		{ U"intercept", attribute_name::Intercept }, { U"is", attribute_name::Is }, { U"ismap", attribute_name::Ismap }, { U"itemid", attribute_name::Itemid },
		{ U"itemprop", attribute_name::Itemprop }, { U"itemref", attribute_name::Itemref }, { U"itemscope", attribute_name::Itemscope },
		{ U"itemtype", attribute_name::Itemtype }, { U"k1", attribute_name::K1 }, { U"k2", attribute_name::K2 }, { U"k3", attribute_name::K3 },
		{ U"k4", attribute_name::K4 }, { U"kernelMatrix", attribute_name::KernelMatrix }, { U"kernelUnitLength", attribute_name::KernelUnitLength },
		{ U"kernelmatrix", attribute_name::Kernelmatrix }, { U"kernelunitlength", attribute_name::Kernelunitlength }, { U"keyPoints", attribute_name::KeyPoints },
		{ U"keySplines", attribute_name::KeySplines }, { U"keyTimes", attribute_name::KeyTimes }, { U"keypoints", attribute_name::Keypoints },
		{ U"keysplines", attribute_name::Keysplines }, { U"keytimes", attribute_name::Keytimes }, { U"kind", attribute_name::Kind },
		{ U"label", attribute_name::Label }, { U"lang", attribute_name::Lang }, { U"largeop", attribute_name::Largeop },
		{ U"leftoverhang", attribute_name::Leftoverhang }, { U"length", attribute_name::Length }, { U"lengthAdjust", attribute_name::LengthAdjust },
		{ U"lengthadjust", attribute_name::Lengthadjust }, { U"letter-spacing", attribute_name::Letter_spacing },
		{ U"lighting-color", attribute_name::Lighting_color }, { U"limitingConeAngle", attribute_name::LimitingConeAngle },
		{ U"limitingconeangle", attribute_name::Limitingconeangle }, { U"linebreak", attribute_name::Linebreak },
		{ U"linebreakmultchar", attribute_name::Linebreakmultchar }, { U"linebreakstyle", attribute_name::Linebreakstyle },
		{ U"lineleading", attribute_name::Lineleading }, { U"linethickness", attribute_name::Linethickness }, { U"list", attribute_name::List },
		{ U"loading", attribute_name::Loading }, { U"location", attribute_name::Location }, { U"longdivstyle", attribute_name::Longdivstyle },
		{ U"loop", attribute_name::Loop }, { U"low", attribute_name::Low }, { U"lquote", attribute_name::Lquote }, { U"lspace", attribute_name::Lspace },
		{ U"ltr", attribute_name::Ltr }, { U"macros", attribute_name::Macros }, { U"manifest", attribute_name::Manifest },
		{ U"marker-end", attribute_name::Marker_end }, { U"marker-mid", attribute_name::Marker_mid }, { U"marker-start", attribute_name::Marker_start },
		{ U"markerHeight", attribute_name::MarkerHeight }, { U"markerUnits", attribute_name::MarkerUnits }, { U"markerWidth", attribute_name::MarkerWidth },
		{ U"markerheight", attribute_name::Markerheight }, { U"markerunits", attribute_name::Markerunits }, { U"markerwidth", attribute_name::Markerwidth },
		{ U"mask", attribute_name::Mask }, { U"mask-type", attribute_name::Mask_type }, { U"maskContentUnits", attribute_name::MaskContentUnits },
		{ U"maskUnits", attribute_name::MaskUnits }, { U"maskcontentunits", attribute_name::Maskcontentunits }, { U"maskunits", attribute_name::Maskunits },
		{ U"math", attribute_name::Math }, { U"math element", attribute_name::Math_element }, { U"mathbackground", attribute_name::Mathbackground },
		{ U"mathcolor", attribute_name::Mathcolor }, { U"mathsize", attribute_name::Mathsize }, { U"mathvariant", attribute_name::Mathvariant },
		{ U"max", attribute_name::Max }, { U"maxlength", attribute_name::Maxlength }, { U"maxsize", attribute_name::Maxsize },
		{ U"maxwidth", attribute_name::Maxwidth }, { U"media", attribute_name::Media }, { U"mediummathspace", attribute_name::Mediummathspace },
		{ U"menclose", attribute_name::Menclose }, { U"method", attribute_name::Method }, { U"min", attribute_name::Min },
		{ U"minlabelspacing", attribute_name::Minlabelspacing }, { U"minlength", attribute_name::Minlength }, { U"minsize", attribute_name::Minsize },
		{ U"mode", attribute_name::Mode }, { U"movablelimits", attribute_name::Movablelimits }, { U"msgroup", attribute_name::Msgroup },
		{ U"mslinethickness", attribute_name::Mslinethickness }, { U"multiple", attribute_name::Multiple }, { U"muted", attribute_name::Muted },
		{ U"name", attribute_name::Name }, { U"nargs", attribute_name::Nargs }, { U"newline", attribute_name::Newline }, { U"nomodule", attribute_name::Nomodule },
		{ U"nonce", attribute_name::Nonce }, { U"notation", attribute_name::Notation }, { U"novalidate", attribute_name::Novalidate },
		{ U"numOctaves", attribute_name::NumOctaves }, { U"numalign", attribute_name::Numalign }, { U"number", attribute_name::Number },
		{ U"numoctaves", attribute_name::Numoctaves }, { U"occurrence", attribute_name::Occurrence }, { U"offset", attribute_name::Offset },
		{ U"onabort", attribute_name::Onabort }, { U"onafterprint", attribute_name::Onafterprint }, { U"onauxclick", attribute_name::Onauxclick },
		{ U"onbeforeprint", attribute_name::Onbeforeprint }, { U"onbeforeunload", attribute_name::Onbeforeunload }, { U"onbegin", attribute_name::Onbegin },
		{ U"onblur", attribute_name::Onblur }, { U"oncancel", attribute_name::Oncancel }, { U"oncanplay", attribute_name::Oncanplay },
		{ U"oncanplaythrough", attribute_name::Oncanplaythrough }, { U"onchange", attribute_name::Onchange }, { U"onclick", attribute_name::Onclick },
		{ U"onclose", attribute_name::Onclose }, { U"oncontextmenu", attribute_name::Oncontextmenu }, { U"oncopy", attribute_name::Oncopy },
		{ U"oncuechange", attribute_name::Oncuechange }, { U"oncut", attribute_name::Oncut }, { U"ondblclick", attribute_name::Ondblclick },
		{ U"ondrag", attribute_name::Ondrag }, { U"ondragend", attribute_name::Ondragend }, { U"ondragenter", attribute_name::Ondragenter },
		{ U"ondragexit", attribute_name::Ondragexit }, { U"ondragleave", attribute_name::Ondragleave }, { U"ondragover", attribute_name::Ondragover },
		{ U"ondragstart", attribute_name::Ondragstart }, { U"ondrop", attribute_name::Ondrop }, { U"ondurationchange", attribute_name::Ondurationchange },
		{ U"onemptied", attribute_name::Onemptied }, { U"onend", attribute_name::Onend }, { U"onended", attribute_name::Onended },
		{ U"onerror", attribute_name::Onerror }, { U"onfocus", attribute_name::Onfocus }, { U"onformdata", attribute_name::Onformdata },
		{ U"onhashchange", attribute_name::Onhashchange }, { U"oninput", attribute_name::Oninput }, { U"oninvalid", attribute_name::Oninvalid },
		{ U"onkeydown", attribute_name::Onkeydown }, { U"onkeypress", attribute_name::Onkeypress }, { U"onkeyup", attribute_name::Onkeyup },
		{ U"onlanguagechange", attribute_name::Onlanguagechange }, { U"onload", attribute_name::Onload }, { U"onloadeddata", attribute_name::Onloadeddata },
		{ U"onloadedmetadata", attribute_name::Onloadedmetadata }, { U"onloadstart", attribute_name::Onloadstart }, { U"onmessage", attribute_name::Onmessage },
		{ U"onmessageerror", attribute_name::Onmessageerror }, { U"onmousedown", attribute_name::Onmousedown }, { U"onmouseenter", attribute_name::Onmouseenter },
		{ U"onmouseleave", attribute_name::Onmouseleave }, { U"onmousemove", attribute_name::Onmousemove }, { U"onmouseout", attribute_name::Onmouseout },
		{ U"onmouseover", attribute_name::Onmouseover }, { U"onmouseup", attribute_name::Onmouseup }, { U"onoffline", attribute_name::Onoffline },
		{ U"ononline", attribute_name::Ononline }, { U"onpagehide", attribute_name::Onpagehide }, { U"onpageshow", attribute_name::Onpageshow },
		{ U"onpaste", attribute_name::Onpaste }, { U"onpause", attribute_name::Onpause }, { U"onplay", attribute_name::Onplay },
		{ U"onplaying", attribute_name::Onplaying }, { U"onpopstate", attribute_name::Onpopstate }, { U"onprogress", attribute_name::Onprogress },
		{ U"onratechange", attribute_name::Onratechange }, { U"onrejectionhandled", attribute_name::Onrejectionhandled }, { U"onrepeat", attribute_name::Onrepeat },
		{ U"onreset", attribute_name::Onreset }, { U"onresize", attribute_name::Onresize }, { U"onscroll", attribute_name::Onscroll },
		{ U"onsecuritypolicyviolation", attribute_name::Onsecuritypolicyviolation }, { U"onseeked", attribute_name::Onseeked },
		{ U"onseeking", attribute_name::Onseeking }, { U"onselect", attribute_name::Onselect }, { U"onshow", attribute_name::Onshow },
		{ U"onslotchange", attribute_name::Onslotchange }, { U"onstalled", attribute_name::Onstalled }, { U"onstorage", attribute_name::Onstorage },
		{ U"onsubmit", attribute_name::Onsubmit }, { U"onsuspend", attribute_name::Onsuspend }, { U"ontimeupdate", attribute_name::Ontimeupdate },
		{ U"ontoggle", attribute_name::Ontoggle }, { U"onunhandledrejection", attribute_name::Onunhandledrejection }, { U"onunload", attribute_name::Onunload },
		{ U"onvolumechange", attribute_name::Onvolumechange }, { U"onwaiting", attribute_name::Onwaiting }, { U"onwheel", attribute_name::Onwheel },
		{ U"opacity", attribute_name::Opacity }, { U"open", attribute_name::Open }, { U"operator", attribute_name::Operator },
		{ U"optimum", attribute_name::Optimum }, { U"order", attribute_name::Order }, { U"orient", attribute_name::Orient }, { U"origin", attribute_name::Origin },
		{ U"other", attribute_name::Other }, { U"overflow", attribute_name::Overflow }, { U"paint-order", attribute_name::Paint_order },
		{ U"path", attribute_name::Path }, { U"pathLength", attribute_name::PathLength }, { U"pathlength", attribute_name::Pathlength },
		{ U"pattern", attribute_name::Pattern }, { U"patternContentUnits", attribute_name::PatternContentUnits },
		{ U"patternTransform", attribute_name::PatternTransform }, { U"patternUnits", attribute_name::PatternUnits },
		{ U"patterncontentunits", attribute_name::Patterncontentunits }, { U"patterntransform", attribute_name::Patterntransform },
		{ U"patternunits", attribute_name::Patternunits }, { U"ping", attribute_name::Ping }, { U"placeholder", attribute_name::Placeholder },
		{ U"playbackorder", attribute_name::Playbackorder }, { U"playsinline", attribute_name::Playsinline }, { U"pointer-events", attribute_name::Pointer_events },
		{ U"points", attribute_name::Points }, { U"pointsAtX", attribute_name::PointsAtX }, { U"pointsAtY", attribute_name::PointsAtY },
		{ U"pointsAtZ", attribute_name::PointsAtZ }, { U"pointsatx", attribute_name::Pointsatx }, { U"pointsaty", attribute_name::Pointsaty },
		{ U"pointsatz", attribute_name::Pointsatz }, { U"position", attribute_name::Position }, { U"poster", attribute_name::Poster },
		{ U"preload", attribute_name::Preload }, { U"preserveAlpha", attribute_name::PreserveAlpha },
		{ U"preserveAspectRatio", attribute_name::PreserveAspectRatio }, { U"preservealpha", attribute_name::Preservealpha },
		{ U"preserveaspectratio", attribute_name::Preserveaspectratio }, { U"primitiveUnits", attribute_name::PrimitiveUnits },
		{ U"primitiveunits", attribute_name::Primitiveunits }, { U"r", attribute_name::R }, { U"radius", attribute_name::Radius },
		{ U"readonly", attribute_name::Readonly }, { U"refX", attribute_name::RefX }, { U"refY", attribute_name::RefY },
		{ U"referrerpolicy", attribute_name::Referrerpolicy }, { U"refx", attribute_name::Refx }, { U"refy", attribute_name::Refy }, { U"rel", attribute_name::Rel },
		{ U"repeatCount", attribute_name::RepeatCount }, { U"repeatDur", attribute_name::RepeatDur }, { U"repeatcount", attribute_name::Repeatcount },
		{ U"repeatdur", attribute_name::Repeatdur }, { U"required", attribute_name::Required }, { U"requiredExtensions", attribute_name::RequiredExtensions },
		{ U"requiredFeatures", attribute_name::RequiredFeatures }, { U"requiredextensions", attribute_name::Requiredextensions },
		{ U"requiredfeatures", attribute_name::Requiredfeatures }, { U"restart", attribute_name::Restart }, { U"result", attribute_name::Result },
		{ U"reversed", attribute_name::Reversed }, { U"rightoverhang", attribute_name::Rightoverhang }, { U"role", attribute_name::Role },
		{ U"rotate", attribute_name::Rotate }, { U"rowalign", attribute_name::Rowalign }, { U"rowlines", attribute_name::Rowlines },
		{ U"rows", attribute_name::Rows }, { U"rowspacing", attribute_name::Rowspacing }, { U"rowspan", attribute_name::Rowspan },
		{ U"rquote", attribute_name::Rquote }, { U"rspace", attribute_name::Rspace }, { U"sandbox", attribute_name::Sandbox }, { U"scale", attribute_name::Scale },
		{ U"schemaLocation", attribute_name::SchemaLocation }, { U"schemalocation", attribute_name::Schemalocation }, { U"scope", attribute_name::Scope },
		{ U"scriptlevel", attribute_name::Scriptlevel }, { U"scriptminsize", attribute_name::Scriptminsize }, { U"scriptsize", attribute_name::Scriptsize },
		{ U"scriptsizemultiplier", attribute_name::Scriptsizemultiplier }, { U"seed", attribute_name::Seed }, { U"selected", attribute_name::Selected },
		{ U"selection", attribute_name::Selection }, { U"separator", attribute_name::Separator }, { U"separators", attribute_name::Separators },
		{ U"shape", attribute_name::Shape }, { U"shape-rendering", attribute_name::Shape_rendering }, { U"shift", attribute_name::Shift },
		{ U"show", attribute_name::Show }, { U"side", attribute_name::Side }, { U"size", attribute_name::Size }, { U"sizes", attribute_name::Sizes },
		{ U"slope", attribute_name::Slope }, { U"slot", attribute_name::Slot }, { U"space", attribute_name::Space }, { U"spacing", attribute_name::Spacing },
		{ U"span", attribute_name::Span }, { U"specularConstant", attribute_name::SpecularConstant }, { U"specularExponent", attribute_name::SpecularExponent },
		{ U"specularconstant", attribute_name::Specularconstant }, { U"specularexponent", attribute_name::Specularexponent },
		{ U"spellcheck", attribute_name::Spellcheck }, { U"spreadMethod", attribute_name::SpreadMethod }, { U"spreadmethod", attribute_name::Spreadmethod },
		{ U"src", attribute_name::Src }, { U"srcdoc", attribute_name::Srcdoc }, { U"srclang", attribute_name::Srclang }, { U"srcset", attribute_name::Srcset },
		{ U"stackalign", attribute_name::Stackalign }, { U"start", attribute_name::Start }, { U"startOffset", attribute_name::StartOffset },
		{ U"startoffset", attribute_name::Startoffset }, { U"stdDeviation", attribute_name::StdDeviation }, { U"stddeviation", attribute_name::Stddeviation },
		{ U"step", attribute_name::Step }, { U"stitchTiles", attribute_name::StitchTiles }, { U"stitchtiles", attribute_name::Stitchtiles },
		{ U"stop-color", attribute_name::Stop_color }, { U"stop-opacity", attribute_name::Stop_opacity }, { U"stretchy", attribute_name::Stretchy },
		{ U"stroke", attribute_name::Stroke }, { U"stroke-dasharray", attribute_name::Stroke_dasharray },
		{ U"stroke-dashoffset", attribute_name::Stroke_dashoffset }, { U"stroke-linecap", attribute_name::Stroke_linecap },
		{ U"stroke-linejoin", attribute_name::Stroke_linejoin }, { U"stroke-miterlimit", attribute_name::Stroke_miterlimit },
		{ U"stroke-opacity", attribute_name::Stroke_opacity }, { U"stroke-width", attribute_name::Stroke_width }, { U"style", attribute_name::Style },
		{ U"subscriptshift", attribute_name::Subscriptshift }, { U"superscriptshift", attribute_name::Superscriptshift },
		{ U"surfaceScale", attribute_name::SurfaceScale }, { U"surfacescale", attribute_name::Surfacescale }, { U"symmetric", attribute_name::Symmetric },
		{ U"systemLanguage", attribute_name::SystemLanguage }, { U"systemlanguage", attribute_name::Systemlanguage }, { U"tabindex", attribute_name::Tabindex },
		{ U"tableValues", attribute_name::TableValues }, { U"tablevalues", attribute_name::Tablevalues }, { U"target", attribute_name::Target },
		{ U"targetX", attribute_name::TargetX }, { U"targetY", attribute_name::TargetY }, { U"targetx", attribute_name::Targetx },
		{ U"targety", attribute_name::Targety }, { U"text-anchor", attribute_name::Text_anchor }, { U"text-decoration", attribute_name::Text_decoration },
		{ U"text-rendering", attribute_name::Text_rendering }, { U"textLength", attribute_name::TextLength }, { U"textlength", attribute_name::Textlength },
		{ U"thickmathspace", attribute_name::Thickmathspace }, { U"thinmathspace", attribute_name::Thinmathspace },
		{ U"timelinebegin", attribute_name::Timelinebegin }, { U"title", attribute_name::Title }, { U"to", attribute_name::To },
		{ U"transform", attribute_name::Transform }, { U"transform-origin", attribute_name::Transform_origin }, { U"translate", attribute_name::Translate },
		{ U"type", attribute_name::Type }, { U"unicode-bidi", attribute_name::Unicode_bidi }, { U"usemap", attribute_name::Usemap },
		{ U"valign", attribute_name::Valign }, { U"value", attribute_name::Value }, { U"values", attribute_name::Values },
		{ U"vector-effect", attribute_name::Vector_effect }, { U"verythickmathspace", attribute_name::Verythickmathspace },
		{ U"verythinmathspace", attribute_name::Verythinmathspace }, { U"veryverythickmathspace", attribute_name::Veryverythickmathspace },
		{ U"veryverythinmathspace", attribute_name::Veryverythinmathspace }, { U"viewBox", attribute_name::ViewBox }, { U"viewTarget", attribute_name::ViewTarget },
		{ U"viewbox", attribute_name::Viewbox }, { U"viewtarget", attribute_name::Viewtarget }, { U"visibility", attribute_name::Visibility },
		{ U"voffset", attribute_name::Voffset }, { U"width", attribute_name::Width }, { U"word-spacing", attribute_name::Word_spacing },
		{ U"wrap", attribute_name::Wrap }, { U"writing-mode", attribute_name::Writing_mode }, { U"x", attribute_name::X }, { U"x1", attribute_name::X1 },
		{ U"x2", attribute_name::X2 }, { U"xChannelSelector", attribute_name::XChannelSelector }, { U"xchannelselector", attribute_name::Xchannelselector },
		{ U"xlink", attribute_name::Xlink }, { U"xlink:actuate", attribute_name::Xlink_actuate }, { U"xlink:arcrole", attribute_name::Xlink_arcrole },
		{ U"xlink:href", attribute_name::Xlink_href }, { U"xlink:role", attribute_name::Xlink_role }, { U"xlink:show", attribute_name::Xlink_show },
		{ U"xlink:title", attribute_name::Xlink_title }, { U"xlink:type", attribute_name::Xlink_type }, { U"xml", attribute_name::Xml },
		{ U"xml:lang", attribute_name::Xml_lang }, { U"xml:space", attribute_name::Xml_space }, { U"xmlns", attribute_name::Xmlns },
		{ U"xmlns:xlink", attribute_name::Xmlns_xlink }, { U"xref", attribute_name::Xref }, { U"xsi:schemaLocation", attribute_name::Xsi_schemaLocation },
		{ U"xsi:schemalocation", attribute_name::Xsi_schemalocation }, { U"y", attribute_name::Y }, { U"y1", attribute_name::Y1 }, { U"y2", attribute_name::Y2 },
		{ U"yChannelSelector", attribute_name::YChannelSelector }, { U"ychannelselector", attribute_name::Ychannelselector }, { U"z", attribute_name::Z },
		{ U"zoomAndPan", attribute_name::ZoomAndPan }, { U"zoomandpan", attribute_name::Zoomandpan },
	};
}
