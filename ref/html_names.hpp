#pragma once
// Names of the HTML Standard: what the references decide with, and the words the worlds write documents with.
#include <string_view>
namespace ref
{
inline constexpr std::u32string_view quirky_public_ids[] = { U"+//Silmaril//dtd html Pro v0r11 19970101//", U"-//AS//DTD HTML 3.0 asWedit + extensions//", U"-//AdvaSoft Ltd//DTD HTML 3.0 asWedit + extensions//", U"-//IETF//DTD HTML 2.0 Level 1//", U"-//IETF//DTD HTML 2.0 Level 2//", U"-//IETF//DTD HTML 2.0 Strict Level 1//", U"-//IETF//DTD HTML 2.0 Strict Level 2//", U"-//IETF//DTD HTML 2.0 Strict//", U"-//IETF//DTD HTML 2.0//", U"-//IETF//DTD HTML 2.1E//", U"-//IETF//DTD HTML 3.0//", U"-//IETF//DTD HTML 3.2 Final//", U"-//IETF//DTD HTML 3.2//", U"-//IETF//DTD HTML 3//", U"-//IETF//DTD HTML Level 0//", U"-//IETF//DTD HTML Level 1//", U"-//IETF//DTD HTML Level 2//", U"-//IETF//DTD HTML Level 3//", U"-//IETF//DTD HTML Strict Level 0//", U"-//IETF//DTD HTML Strict Level 1//", U"-//IETF//DTD HTML Strict Level 2//", U"-//IETF//DTD HTML Strict Level 3//", U"-//IETF//DTD HTML Strict//", U"-//IETF//DTD HTML//", U"-//Metrius//DTD Metrius Presentational//", U"-//Microsoft//DTD Internet Explorer 2.0 HTML Strict//", U"-//Microsoft//DTD Internet Explorer 2.0 HTML//", U"-//Microsoft//DTD Internet Explorer 2.0 Tables//", U"-//Microsoft//DTD Internet Explorer 3.0 HTML Strict//", U"-//Microsoft//DTD Internet Explorer 3.0 HTML//", U"-//Microsoft//DTD Internet Explorer 3.0 Tables//", U"-//Netscape Comm. Corp.//DTD HTML//", U"-//Netscape Comm. Corp.//DTD Strict HTML//", U"-//O'Reilly and Associates//DTD HTML 2.0//", U"-//O'Reilly and Associates//DTD HTML Extended 1.0//", U"-//O'Reilly and Associates//DTD HTML Extended Relaxed 1.0//", U"-//SQ//DTD HTML 2.0 HoTMetaL + extensions//", U"-//SoftQuad Software//DTD HoTMetaL PRO 6.0::19990601::extensions to HTML 4.0//", U"-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//", U"-//Spyglass//DTD HTML 2.0 Extended//", U"-//Sun Microsystems Corp.//DTD HotJava HTML//", U"-//Sun Microsystems Corp.//DTD HotJava Strict HTML//", U"-//W3C//DTD HTML 3 1995-03-24//", U"-//W3C//DTD HTML 3.2 Draft//", U"-//W3C//DTD HTML 3.2 Final//", U"-//W3C//DTD HTML 3.2//", U"-//W3C//DTD HTML 3.2S Draft//", U"-//W3C//DTD HTML 4.0 Frameset//", U"-//W3C//DTD HTML 4.0 Transitional//", U"-//W3C//DTD HTML Experimental 19960712//", U"-//W3C//DTD HTML Experimental 970421//", U"-//W3C//DTD W3 HTML//", U"-//W3O//DTD W3 HTML 3.0//", U"-//WebTechs//DTD Mozilla HTML 2.0//", U"-//WebTechs//DTD Mozilla HTML//" };
inline constexpr std::u32string_view svg_attribute_names[] = { U"attributeName", U"attributeType", U"baseFrequency", U"baseProfile", U"calcMode", U"clipPathUnits", U"diffuseConstant", U"edgeMode", U"filterUnits", U"glyphRef", U"gradientTransform", U"gradientUnits", U"kernelMatrix", U"kernelUnitLength", U"keyPoints", U"keySplines", U"keyTimes", U"lengthAdjust", U"limitingConeAngle", U"markerHeight", U"markerUnits", U"markerWidth", U"maskContentUnits", U"maskUnits", U"numOctaves", U"pathLength", U"patternContentUnits", U"patternTransform", U"patternUnits", U"pointsAtX", U"pointsAtY", U"pointsAtZ", U"preserveAlpha", U"preserveAspectRatio", U"primitiveUnits", U"refX", U"refY", U"repeatCount", U"repeatDur", U"requiredExtensions", U"requiredFeatures", U"specularConstant", U"specularExponent", U"spreadMethod", U"startOffset", U"stdDeviation", U"stitchTiles", U"surfaceScale", U"systemLanguage", U"tableValues", U"targetX", U"targetY", U"textLength", U"viewBox", U"viewTarget", U"xChannelSelector", U"yChannelSelector", U"zoomAndPan" };
inline constexpr std::u32string_view svg_tag_names[] = { U"altGlyph", U"altGlyphDef", U"altGlyphItem", U"animateColor", U"animateMotion", U"animateTransform", U"clipPath", U"feBlend", U"feColorMatrix", U"feComponentTransfer", U"feComposite", U"feConvolveMatrix", U"feDiffuseLighting", U"feDisplacementMap", U"feDistantLight", U"feDropShadow", U"feFlood", U"feFuncA", U"feFuncB", U"feFuncG", U"feFuncR", U"feGaussianBlur", U"feImage", U"feMerge", U"feMergeNode", U"feMorphology", U"feOffset", U"fePointLight", U"feSpecularLighting", U"feSpotLight", U"feTile", U"feTurbulence", U"foreignObject", U"glyphRef", U"linearGradient", U"radialGradient", U"textPath" };
// known to the implementation: any element or attribute may have them
inline constexpr std::u32string_view known_tags[] = { U"a", U"abbr", U"abs", U"address", U"altglyph", U"altglyphdef", U"altglyphitem", U"and", U"animate", U"animatecolor", U"animatemotion", U"animatetransform", U"annotation", U"annotation-xml", U"applet", U"apply", U"approx", U"arccos", U"arccosh", U"arccot", U"arccoth", U"arccsc", U"arccsch", U"arcsec", U"arcsech", U"arcsin", U"arcsinh", U"arctan", U"arctanh", U"area", U"arg", U"article", U"aside", U"audio", U"b", U"base", U"basefont", U"bdi", U"bdo", U"bgsound", U"big", U"bind", U"blockquote", U"body", U"br", U"button", U"bvar", U"canvas", U"caption", U"card", U"cartesianproduct", U"cbytes", U"ceiling", U"center", U"cerror", U"ci", U"circle", U"cite", U"clippath", U"cn", U"code", U"codomain", U"col", U"colgroup", U"complexes", U"compose", U"condition", U"conjugate", U"cos", U"cosh", U"cot", U"coth", U"cs", U"csc", U"csch", U"csymbol", U"curl", U"data", U"datalist", U"dd", U"declare", U"defs", U"degree", U"del", U"desc", U"details", U"determinant", U"dfn", U"dialog", U"diff", U"dir", U"discard", U"div", U"divergence", U"divide", U"dl", U"domain", U"domainofapplication", U"dt", U"ellipse", U"em", U"embed", U"emptyset", U"eq", U"equivalent", U"eulergamma", U"exists", U"exp", U"exponentiale", U"factorial", U"factorof", U"false", U"feblend", U"fecolormatrix", U"fecomponenttransfer", U"fecomposite", U"feconvolvematrix", U"fediffuselighting", U"fedisplacementmap", U"fedistantlight", U"fedropshadow", U"feflood", U"fefunca", U"fefuncb", U"fefuncg", U"fefuncr", U"fegaussianblur", U"feimage", U"femerge", U"femergenode", U"femorphology", U"feoffset", U"fepointlight", U"fespecularlighting", U"fespotlight", U"fetile", U"feturbulence", U"fieldset", U"figcaption", U"figure", U"filter", U"floor", U"fn", U"font", U"footer", U"forall", U"foreignobject", U"form", U"frame", U"frameset", U"g", U"gcd", U"geq", U"glyphref", U"grad", U"gt", U"h1", U"h2", U"h3", U"h4", U"h5", U"h6", U"head", U"header", U"hgroup", U"hr", U"html", U"i", U"ident", U"iframe", U"image", U"imaginary", U"imaginaryi", U"img", U"implies", U"in", U"infinity", U"input", U"ins", U"int", U"integers", U"intersect", U"interval", U"inverse", U"kbd", U"keygen", U"label", U"lambda", U"laplacian", U"lcm", U"legend", U"leq", U"li", U"limit", U"line", U"lineargradient", U"link", U"list", U"listing", U"ln", U"log", U"logbase", U"lowlimit", U"lt", U"maction", U"main", U"maligngroup", U"malignmark", U"map", U"mark", U"marker", U"marquee", U"mask", U"math", U"matrix", U"matrixrow", U"max", U"mean", U"median", U"menclose", U"menu", U"merror", U"meta", U"metadata", U"meter", U"mfenced", U"mfrac", U"mglyph", U"mi", U"min", U"minus", U"mlabeledtr", U"mlongdiv", U"mmultiscripts", U"mn", U"mo", U"mode", U"moment", U"momentabout", U"mover", U"mpadded", U"mpath", U"mphantom", U"mprescripts", U"mroot", U"mrow", U"ms", U"mscarries", U"mscarry", U"msgroup", U"msline", U"mspace", U"msqrt", U"msrow", U"mstack", U"mstyle", U"msub", U"msubsup", U"msup", U"mtable", U"mtd", U"mtext", U"mtr", U"munder", U"munderover", U"naturalnumbers", U"nav", U"neq", U"nobr", U"noembed", U"noframes", U"none", U"noscript", U"not", U"notanumber", U"notin", U"notprsubset", U"notsubset", U"object", U"ol", U"optgroup", U"option", U"or", U"otherwise", U"outerproduct", U"output", U"p", U"param", U"partialdiff", U"path", U"pattern", U"pi", U"picture", U"piece", U"piecewise", U"plaintext", U"plus", U"polygon", U"polyline", U"power", U"pre", U"primes", U"product", U"progress", U"prsubset", U"q", U"quotient", U"radialgradient", U"rationals", U"rb", U"real", U"reals", U"rect", U"reln", U"rem", U"root", U"rp", U"rt", U"rtc", U"ruby", U"s", U"samp", U"scalarproduct", U"script", U"sdev", U"sec", U"sech", U"section", U"select", U"selector", U"semantics", U"sep", U"set", U"setdiff", U"share", U"sin", U"sinh", U"slot", U"small", U"source", U"span", U"stop", U"strike", U"strong", U"style", U"sub", U"subset", U"sum", U"summary", U"sup", U"svg", U"switch", U"symbol", U"table", U"tan", U"tanh", U"tbody", U"td", U"template", U"tendsto", U"text", U"textarea", U"textpath", U"tfoot", U"th", U"thead", U"time", U"times", U"title", U"tr", U"track", U"transpose", U"true", U"tspan", U"tt", U"u", U"ul", U"union", U"uplimit", U"use", U"var", U"variance", U"vector", U"vectorproduct", U"video", U"view", U"wbr", U"xmp", U"xor" };
inline constexpr std::u32string_view known_attributes[] = { U"abbr", U"accent", U"accentunder", U"accept", U"accept-charset", U"accesskey", U"accumulate", U"action", U"actiontype", U"actuate", U"additive", U"align", U"alignment-baseline", U"alignmentscope", U"allow", U"allowfullscreen", U"allowpaymentrequest", U"alt", U"altimg", U"altimg-height", U"altimg-valign", U"altimg-width", U"alttext", U"amplitude", U"annotation-xml", U"arcrole", U"aria-activedescendant", U"aria-atomic", U"aria-autocomplete", U"aria-busy", U"aria-checked", U"aria-colcount", U"aria-colindex", U"aria-colspan", U"aria-controls", U"aria-current", U"aria-describedby", U"aria-details", U"aria-disabled", U"aria-dropeffect", U"aria-errormessage", U"aria-expanded", U"aria-flowto", U"aria-grabbed", U"aria-haspopup", U"aria-hidden", U"aria-invalid", U"aria-keyshortcuts", U"aria-label", U"aria-labelledby", U"aria-level", U"aria-live", U"aria-modal", U"aria-multiline", U"aria-multiselectable", U"aria-orientation", U"aria-owns", U"aria-placeholder", U"aria-posinset", U"aria-pressed", U"aria-readonly", U"aria-relevant", U"aria-required", U"aria-roledescription", U"aria-rowcount", U"aria-rowindex", U"aria-rowspan", U"aria-selected", U"aria-setsize", U"aria-sort", U"aria-valuemax", U"aria-valuemin", U"aria-valuenow", U"aria-valuetext", U"as", U"async", U"attributename", U"attributetype", U"autocapitalize", U"autocomplete", U"autofocus", U"autoplay", U"azimuth", U"background", U"base", U"basefrequency", U"baseline", U"baseline-shift", U"baseprofile", U"begin", U"bevelled", U"bias", U"by", U"calcmode", U"cd", U"cdgroup", U"charalign", U"charset", U"charspacing", U"checked", U"cite", U"class", U"clip", U"clip-path", U"clip-rule", U"clippathunits", U"close", U"closure", U"color", U"color-interpolation", U"color-interpolation-filters", U"cols", U"colspan", U"columnalign", U"columnalignment", U"columnlines", U"columnspacing", U"columnspan", U"columnwidth", U"content", U"contenteditable", U"controls", U"coords", U"crossorigin", U"crossout", U"cursor", U"cx", U"cy", U"data", U"datetime", U"decimalpoint", U"decoding", U"default", U"defer", U"definitionurl", U"denomalign", U"depth", U"diffuseconstant", U"dir", U"direction", U"dirname", U"disabled", U"display", U"displaystyle", U"divisor", U"dominant-baseline", U"download", U"draggable", U"dur", U"dx", U"dy", U"edge", U"edgemode", U"elevation", U"encoding", U"enctype", U"end", U"enterkeyhint", U"equalcolumns", U"equalrows", U"exponent", U"fence", U"fill", U"fill-opacity", U"fill-rule", U"filter", U"filterunits", U"flood-color", U"flood-opacity", U"font-family", U"font-size", U"font-size-adjust", U"font-stretch", U"font-style", U"font-variant", U"font-weight", U"fontfamily", U"fontsize", U"fontstyle", U"fontweight", U"for", U"form", U"formaction", U"formenctype", U"formmethod", U"formnovalidate", U"formtarget", U"fr", U"frame", U"framespacing", U"from", U"fx", U"fy", U"glyph-orientation-horizontal", U"glyph-orientation-vertical", U"glyphref", U"gradienttransform", U"gradientunits", U"groupalign", U"headers", U"height", U"hidden", U"high", U"href", U"hreflang", U"http-equiv", U"id", U"image-rendering", U"imagesizes", U"imagesrcset", U"in", U"in2", U"indentalign", U"indentalignfirst", U"indentalignlast", U"indentshift", U"indentshiftfirst", U"indentshiftlast", U"indenttarget", U"index", U"infixlinebreakstyle", U"inputmode", U"integer", U"integrity", U"intercept", U"is", U"ismap", U"itemid", U"itemprop", U"itemref", U"itemscope", U"itemtype", U"k1", U"k2", U"k3", U"k4", U"kernelmatrix", U"kernelunitlength", U"keypoints", U"keysplines", U"keytimes", U"kind", U"label", U"lang", U"largeop", U"leftoverhang", U"length", U"lengthadjust", U"letter-spacing", U"lighting-color", U"limitingconeangle", U"linebreak", U"linebreakmultchar", U"linebreakstyle", U"lineleading", U"linethickness", U"list", U"loading", U"location", U"longdivstyle", U"loop", U"low", U"lquote", U"lspace", U"ltr", U"macros", U"manifest", U"marker-end", U"marker-mid", U"marker-start", U"markerheight", U"markerunits", U"markerwidth", U"mask", U"mask-type", U"maskcontentunits", U"maskunits", U"math", U"mathbackground", U"mathcolor", U"mathsize", U"mathvariant", U"max", U"maxlength", U"maxsize", U"maxwidth", U"media", U"mediummathspace", U"menclose", U"method", U"min", U"minlabelspacing", U"minlength", U"minsize", U"mode", U"movablelimits", U"msgroup", U"mslinethickness", U"multiple", U"muted", U"name", U"nargs", U"newline", U"nomodule", U"nonce", U"notation", U"novalidate", U"numalign", U"number", U"numoctaves", U"occurrence", U"offset", U"onabort", U"onafterprint", U"onauxclick", U"onbeforeprint", U"onbeforeunload", U"onbegin", U"onblur", U"oncancel", U"oncanplay", U"oncanplaythrough", U"onchange", U"onclick", U"onclose", U"oncontextmenu", U"oncopy", U"oncuechange", U"oncut", U"ondblclick", U"ondrag", U"ondragend", U"ondragenter", U"ondragexit", U"ondragleave", U"ondragover", U"ondragstart", U"ondrop", U"ondurationchange", U"onemptied", U"onend", U"onended", U"onerror", U"onfocus", U"onformdata", U"onhashchange", U"oninput", U"oninvalid", U"onkeydown", U"onkeypress", U"onkeyup", U"onlanguagechange", U"onload", U"onloadeddata", U"onloadedmetadata", U"onloadstart", U"onmessage", U"onmessageerror", U"onmousedown", U"onmouseenter", U"onmouseleave", U"onmousemove", U"onmouseout", U"onmouseover", U"onmouseup", U"onoffline", U"ononline", U"onpagehide", U"onpageshow", U"onpaste", U"onpause", U"onplay", U"onplaying", U"onpopstate", U"onprogress", U"onratechange", U"onrejectionhandled", U"onrepeat", U"onreset", U"onresize", U"onscroll", U"onsecuritypolicyviolation", U"onseeked", U"onseeking", U"onselect", U"onshow", U"onslotchange", U"onstalled", U"onstorage", U"onsubmit", U"onsuspend", U"ontimeupdate", U"ontoggle", U"onunhandledrejection", U"onunload", U"onvolumechange", U"onwaiting", U"onwheel", U"opacity", U"open", U"operator", U"optimum", U"order", U"orient", U"origin", U"other", U"overflow", U"paint-order", U"path", U"pathlength", U"pattern", U"patterncontentunits", U"patterntransform", U"patternunits", U"ping", U"placeholder", U"playbackorder", U"playsinline", U"pointer-events", U"points", U"pointsatx", U"pointsaty", U"pointsatz", U"position", U"poster", U"preload", U"preservealpha", U"preserveaspectratio", U"primitiveunits", U"r", U"radius", U"readonly", U"referrerpolicy", U"refx", U"refy", U"rel", U"repeatcount", U"repeatdur", U"required", U"requiredextensions", U"requiredfeatures", U"restart", U"result", U"reversed", U"rightoverhang", U"role", U"rotate", U"rowalign", U"rowlines", U"rows", U"rowspacing", U"rowspan", U"rquote", U"rspace", U"sandbox", U"scale", U"schemalocation", U"scope", U"scriptlevel", U"scriptminsize", U"scriptsize", U"scriptsizemultiplier", U"seed", U"selected", U"selection", U"separator", U"separators", U"shape", U"shape-rendering", U"shift", U"show", U"side", U"size", U"sizes", U"slope", U"slot", U"space", U"spacing", U"span", U"specularconstant", U"specularexponent", U"spellcheck", U"spreadmethod", U"src", U"srcdoc", U"srclang", U"srcset", U"stackalign", U"start", U"startoffset", U"stddeviation", U"step", U"stitchtiles", U"stop-color", U"stop-opacity", U"stretchy", U"stroke", U"stroke-dasharray", U"stroke-dashoffset", U"stroke-linecap", U"stroke-linejoin", U"stroke-miterlimit", U"stroke-opacity", U"stroke-width", U"style", U"subscriptshift", U"superscriptshift", U"surfacescale", U"symmetric", U"systemlanguage", U"tabindex", U"tablevalues", U"target", U"targetx", U"targety", U"text-anchor", U"text-decoration", U"text-rendering", U"textlength", U"thickmathspace", U"thinmathspace", U"timelinebegin", U"title", U"to", U"transform", U"transform-origin", U"translate", U"type", U"unicode-bidi", U"usemap", U"valign", U"value", U"values", U"vector-effect", U"verythickmathspace", U"verythinmathspace", U"veryverythickmathspace", U"veryverythinmathspace", U"viewbox", U"viewtarget", U"visibility", U"voffset", U"width", U"word-spacing", U"wrap", U"writing-mode", U"x", U"x1", U"x2", U"xchannelselector", U"xlink", U"xlink:actuate", U"xlink:arcrole", U"xlink:href", U"xlink:role", U"xlink:show", U"xlink:title", U"xlink:type", U"xml", U"xml:lang", U"xml:space", U"xmlns", U"xmlns:xlink", U"xref", U"xsi:schemalocation", U"y", U"y1", U"y2", U"ychannelselector", U"z", U"zoomandpan" };
}
