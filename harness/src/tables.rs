// Generated once from tachys 0.1.9 (elements, attributes and events it knows).
/// (tag, typed attributes, children are escaped)
pub const VOID: &[(&str, &[&str])] = &[
    ("area", &["alt", "coords", "download", "href", "hreflang", "ping", "rel", "shape", "target"]),
    ("base", &["href", "target"]),
    ("br", &[]),
    ("col", &["span"]),
    ("embed", &["height", "src", "type", "width"]),
    ("hr", &[]),
    ("img", &["alt", "attributionsrc", "crossorigin", "decoding", "elementtiming", "fetchpriority", "height", "ismap", "loading", "referrerpolicy", "sizes", "src", "srcset", "usemap", "width"]),
    ("input", &["accept", "alt", "autocomplete", "capture", "checked", "disabled", "form", "formaction", "formenctype", "formmethod", "formnovalidate", "formtarget", "height", "list", "max", "maxlength", "min", "minlength", "multiple", "name", "pattern", "placeholder", "popovertarget", "popovertargetaction", "readonly", "required", "size", "src", "step", "type", "value", "width"]),
    ("link", &["as", "blocking", "crossorigin", "fetchpriority", "href", "hreflang", "imagesizes", "imagesrcset", "integrity", "media", "rel", "referrerpolicy", "sizes", "type"]),
    ("meta", &["charset", "content", "http_equiv", "name"]),
    ("source", &["src", "type", "srcset", "sizes", "media", "height", "width"]),
    ("track", &["default", "kind", "label", "src", "srclang"]),
    ("wbr", &[]),
];
pub const HTML: &[(&str, &[&str], bool)] = &[
    ("a", &["download", "href", "hreflang", "ping", "rel", "target", "type"], true),
    ("abbr", &[], true),
    ("address", &[], true),
    ("article", &[], true),
    ("aside", &[], true),
    ("audio", &["autoplay", "controls", "crossorigin", "loop", "muted", "preload", "src"], true),
    ("b", &[], true),
    ("bdi", &[], true),
    ("bdo", &[], true),
    ("blockquote", &["cite"], true),
    ("body", &[], true),
    ("button", &["disabled", "form", "formaction", "formenctype", "formmethod", "formnovalidate", "formtarget", "name", "type", "value", "popovertarget", "popovertargetaction"], true),
    ("canvas", &["height", "width"], true),
    ("caption", &[], true),
    ("cite", &[], true),
    ("code", &[], true),
    ("colgroup", &["span"], true),
    ("data", &["value"], true),
    ("datalist", &[], true),
    ("dd", &[], true),
    ("del", &["cite", "datetime"], true),
    ("details", &["open"], true),
    ("dfn", &[], true),
    ("dialog", &["open"], true),
    ("div", &[], true),
    ("dl", &[], true),
    ("dt", &[], true),
    ("em", &[], true),
    ("fieldset", &["disabled", "form", "name"], true),
    ("figcaption", &[], true),
    ("figure", &[], true),
    ("footer", &[], true),
    ("form", &["accept_charset", "action", "autocomplete", "enctype", "method", "name", "novalidate", "target"], true),
    ("h1", &[], true),
    ("h2", &[], true),
    ("h3", &[], true),
    ("h4", &[], true),
    ("h5", &[], true),
    ("h6", &[], true),
    ("head", &[], true),
    ("header", &[], true),
    ("hgroup", &[], true),
    ("html", &[], true),
    ("i", &[], true),
    ("iframe", &["allow", "allowfullscreen", "allowpaymentrequest", "height", "name", "referrerpolicy", "sandbox", "src", "srcdoc", "width"], true),
    ("ins", &["cite", "datetime"], true),
    ("kbd", &[], true),
    ("label", &["for", "form"], true),
    ("legend", &[], true),
    ("li", &["value"], true),
    ("main", &[], true),
    ("map", &["name"], true),
    ("mark", &[], true),
    ("menu", &[], true),
    ("meter", &["value", "min", "max", "low", "high", "optimum", "form"], true),
    ("nav", &[], true),
    ("noscript", &[], false),
    ("object", &["data", "form", "height", "name", "type", "usemap", "width"], true),
    ("ol", &["reversed", "start", "type"], true),
    ("optgroup", &["disabled", "label"], true),
    ("output", &["for", "form", "name"], true),
    ("p", &[], true),
    ("picture", &[], true),
    ("portal", &["referrerpolicy", "src"], true),
    ("pre", &[], true),
    ("progress", &["min", "max", "value"], true),
    ("q", &["cite"], true),
    ("rp", &[], true),
    ("rt", &[], true),
    ("ruby", &[], true),
    ("s", &[], true),
    ("samp", &[], true),
    ("script", &["async", "crossorigin", "defer", "fetchpriority", "integrity", "nomodule", "referrerpolicy", "src", "type", "blocking"], false),
    ("search", &[], true),
    ("section", &[], true),
    ("select", &["autocomplete", "disabled", "form", "multiple", "name", "required", "size"], true),
    ("slot", &["name"], true),
    ("small", &[], true),
    ("span", &[], true),
    ("strong", &[], true),
    ("style", &["media", "blocking"], false),
    ("sub", &[], true),
    ("summary", &[], true),
    ("sup", &[], true),
    ("table", &[], true),
    ("tbody", &[], true),
    ("td", &["colspan", "headers", "rowspan"], true),
    ("template", &[], true),
    ("textarea", &["autocomplete", "cols", "dirname", "disabled", "form", "maxlength", "minlength", "name", "placeholder", "readonly", "required", "rows", "wrap"], false),
    ("tfoot", &[], true),
    ("th", &["abbr", "colspan", "headers", "rowspan", "scope"], true),
    ("thead", &[], true),
    ("time", &["datetime"], true),
    ("title", &[], true),
    ("tr", &[], true),
    ("u", &[], true),
    ("ul", &[], true),
    ("var", &[], true),
    ("video", &["autoplay", "controls", "controlslist", "crossorigin", "disablepictureinpicture", "disableremoteplayback", "height", "loop", "muted", "playsinline", "poster", "preload", "src", "width"], true),
    ("option", &["disabled", "label", "selected", "value"], true),
];
pub const SVG: &[&str] = &["animate", "animateMotion", "animateTransform", "circle", "clipPath", "defs", "desc", "discard", "ellipse", "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "filter", "foreignObject", "g", "hatch", "hatchpath", "image", "line", "linearGradient", "marker", "mask", "metadata", "mpath", "path", "pattern", "polygon", "polyline", "radialGradient", "rect", "set", "stop", "svg", "switch", "symbol", "text", "textPath", "tspan", "view", "use"];
pub const MATH: &[(&str, &[&str])] = &[
    ("math", &["display", "xmlns"]),
    ("mi", &[]),
    ("mn", &[]),
    ("mo", &["accent", "fence", "lspace", "maxsize", "minsize", "movablelimits", "rspace", "separator", "stretchy", "symmetric", "form"]),
    ("ms", &[]),
    ("mspace", &["height", "width"]),
    ("mtext", &[]),
    ("menclose", &["notation"]),
    ("merror", &[]),
    ("mfenced", &[]),
    ("mfrac", &["linethickness"]),
    ("mpadded", &["depth", "height", "voffset", "width"]),
    ("mphantom", &[]),
    ("mroot", &[]),
    ("mrow", &[]),
    ("msqrt", &[]),
    ("mstyle", &[]),
    ("mmultiscripts", &[]),
    ("mover", &["accent"]),
    ("mprescripts", &[]),
    ("msub", &[]),
    ("msubsup", &[]),
    ("msup", &[]),
    ("munder", &["accentunder"]),
    ("munderover", &["accent", "accentunder"]),
    ("mtable", &["align", "columnalign", "columnlines", "columnspacing", "frame", "framespacing", "rowalign", "rowlines", "rowspacing", "width"]),
    ("mtd", &["columnalign", "columnspan", "rowalign", "rowspan"]),
    ("mtr", &["columnalign", "rowalign"]),
    ("maction", &[]),
    ("annotation", &[]),
    ("semantics", &[]),
];
/// (name in Rust, name in HTML)
pub const ATTRS: &[(&str, &str)] = &[
    ("abbr", "abbr"),
    ("accept_charset", "accept-charset"),
    ("accept", "accept"),
    ("accesskey", "accesskey"),
    ("action", "action"),
    ("align", "align"),
    ("allow", "allow"),
    ("allowfullscreen", "allowfullscreen"),
    ("allowpaymentrequest", "allowpaymentrequest"),
    ("alt", "alt"),
    ("aria_activedescendant", "aria-activedescendant"),
    ("aria_atomic", "aria-atomic"),
    ("aria_autocomplete", "aria-autocomplete"),
    ("aria_busy", "aria-busy"),
    ("aria_checked", "aria-checked"),
    ("aria_colcount", "aria-colcount"),
    ("aria_colindex", "aria-colindex"),
    ("aria_colspan", "aria-colspan"),
    ("aria_controls", "aria-controls"),
    ("aria_current", "aria-current"),
    ("aria_describedby", "aria-describedby"),
    ("aria_description", "aria-description"),
    ("aria_details", "aria-details"),
    ("aria_disabled", "aria-disabled"),
    ("aria_dropeffect", "aria-dropeffect"),
    ("aria_errormessage", "aria-errormessage"),
    ("aria_expanded", "aria-expanded"),
    ("aria_flowto", "aria-flowto"),
    ("aria_grabbed", "aria-grabbed"),
    ("aria_haspopup", "aria-haspopup"),
    ("aria_hidden", "aria-hidden"),
    ("aria_invalid", "aria-invalid"),
    ("aria_keyshortcuts", "aria-keyshortcuts"),
    ("aria_label", "aria-label"),
    ("aria_labelledby", "aria-labelledby"),
    ("aria_live", "aria-live"),
    ("aria_modal", "aria-modal"),
    ("aria_multiline", "aria-multiline"),
    ("aria_multiselectable", "aria-multiselectable"),
    ("aria_orientation", "aria-orientation"),
    ("aria_owns", "aria-owns"),
    ("aria_placeholder", "aria-placeholder"),
    ("aria_posinset", "aria-posinset"),
    ("aria_pressed", "aria-pressed"),
    ("aria_readonly", "aria-readonly"),
    ("aria_relevant", "aria-relevant"),
    ("aria_required", "aria-required"),
    ("aria_roledescription", "aria-roledescription"),
    ("aria_rowcount", "aria-rowcount"),
    ("aria_rowindex", "aria-rowindex"),
    ("aria_rowspan", "aria-rowspan"),
    ("aria_selected", "aria-selected"),
    ("aria_setsize", "aria-setsize"),
    ("aria_sort", "aria-sort"),
    ("aria_valuemax", "aria-valuemax"),
    ("aria_valuemin", "aria-valuemin"),
    ("aria_valuenow", "aria-valuenow"),
    ("aria_valuetext", "aria-valuetext"),
    ("as", "as"),
    ("async", "async"),
    ("attributionsrc", "attributionsrc"),
    ("autocapitalize", "autocapitalize"),
    ("autocomplete", "autocomplete"),
    ("autofocus", "autofocus"),
    ("autoplay", "autoplay"),
    ("background", "background"),
    ("bgcolor", "bgcolor"),
    ("blocking", "blocking"),
    ("border", "border"),
    ("buffered", "buffered"),
    ("capture", "capture"),
    ("challenge", "challenge"),
    ("charset", "charset"),
    ("checked", "checked"),
    ("cite", "cite"),
    ("code", "code"),
    ("color", "color"),
    ("cols", "cols"),
    ("colspan", "colspan"),
    ("content", "content"),
    ("contenteditable", "contenteditable"),
    ("contextmenu", "contextmenu"),
    ("controls", "controls"),
    ("controlslist", "controlslist"),
    ("coords", "coords"),
    ("crossorigin", "crossorigin"),
    ("csp", "csp"),
    ("data", "data"),
    ("datetime", "datetime"),
    ("decoding", "decoding"),
    ("default", "default"),
    ("defer", "defer"),
    ("dir", "dir"),
    ("dirname", "dirname"),
    ("disabled", "disabled"),
    ("disablepictureinpicture", "disablepictureinpicture"),
    ("disableremoteplayback", "disableremoteplayback"),
    ("download", "download"),
    ("draggable", "draggable"),
    ("elementtiming", "elementtiming"),
    ("enctype", "enctype"),
    ("enterkeyhint", "enterkeyhint"),
    ("exportparts", "exportparts"),
    ("fetchpriority", "fetchpriority"),
    ("for", "for"),
    ("form", "form"),
    ("formaction", "formaction"),
    ("formenctype", "formenctype"),
    ("formmethod", "formmethod"),
    ("formnovalidate", "formnovalidate"),
    ("formtarget", "formtarget"),
    ("headers", "headers"),
    ("height", "height"),
    ("hidden", "hidden"),
    ("high", "high"),
    ("href", "href"),
    ("hreflang", "hreflang"),
    ("http_equiv", "http-equiv"),
    ("icon", "icon"),
    ("id", "id"),
    ("imagesizes", "imagesizes"),
    ("imagesrcset", "imagesrcset"),
    ("importance", "importance"),
    ("inert", "inert"),
    ("inputmode", "inputmode"),
    ("integrity", "integrity"),
    ("intrinsicsize", "intrinsicsize"),
    ("is", "is"),
    ("ismap", "ismap"),
    ("itemid", "itemid"),
    ("itemprop", "itemprop"),
    ("itemref", "itemref"),
    ("itemscope", "itemscope"),
    ("itemtype", "itemtype"),
    ("keytype", "keytype"),
    ("kind", "kind"),
    ("label", "label"),
    ("lang", "lang"),
    ("language", "language"),
    ("list", "list"),
    ("loading", "loading"),
    ("loop", "loop"),
    ("low", "low"),
    ("manifest", "manifest"),
    ("max", "max"),
    ("maxlength", "maxlength"),
    ("media", "media"),
    ("method", "method"),
    ("min", "min"),
    ("minlength", "minlength"),
    ("multiple", "multiple"),
    ("muted", "muted"),
    ("name", "name"),
    ("nomodule", "nomodule"),
    ("nonce", "nonce"),
    ("novalidate", "novalidate"),
    ("open", "open"),
    ("optimum", "optimum"),
    ("part", "part"),
    ("pattern", "pattern"),
    ("ping", "ping"),
    ("placeholder", "placeholder"),
    ("playsinline", "playsinline"),
    ("popover", "popover"),
    ("popovertarget", "popovertarget"),
    ("popovertargetaction", "popovertargetaction"),
    ("poster", "poster"),
    ("preload", "preload"),
    ("radiogroup", "radiogroup"),
    ("readonly", "readonly"),
    ("referrerpolicy", "referrerpolicy"),
    ("rel", "rel"),
    ("required", "required"),
    ("reversed", "reversed"),
    ("role", "role"),
    ("rows", "rows"),
    ("rowspan", "rowspan"),
    ("sandbox", "sandbox"),
    ("scope", "scope"),
    ("scoped", "scoped"),
    ("selected", "selected"),
    ("shape", "shape"),
    ("size", "size"),
    ("sizes", "sizes"),
    ("slot", "slot"),
    ("span", "span"),
    ("spellcheck", "spellcheck"),
    ("src", "src"),
    ("srcdoc", "srcdoc"),
    ("srclang", "srclang"),
    ("srcset", "srcset"),
    ("start", "start"),
    ("step", "step"),
    ("summary", "summary"),
    ("tabindex", "tabindex"),
    ("target", "target"),
    ("title", "title"),
    ("translate", "translate"),
    ("type", "type"),
    ("usemap", "usemap"),
    ("value", "value"),
    ("virtualkeyboardpolicy", "virtualkeyboardpolicy"),
    ("width", "width"),
    ("wrap", "wrap"),
    ("onabort", "onabort"),
    ("onautocomplete", "onautocomplete"),
    ("onautocompleteerror", "onautocompleteerror"),
    ("onblur", "onblur"),
    ("oncancel", "oncancel"),
    ("oncanplay", "oncanplay"),
    ("oncanplaythrough", "oncanplaythrough"),
    ("onchange", "onchange"),
    ("onclick", "onclick"),
    ("onclose", "onclose"),
    ("oncontextmenu", "oncontextmenu"),
    ("oncuechange", "oncuechange"),
    ("ondblclick", "ondblclick"),
    ("ondrag", "ondrag"),
    ("ondragend", "ondragend"),
    ("ondragenter", "ondragenter"),
    ("ondragleave", "ondragleave"),
    ("ondragover", "ondragover"),
    ("ondragstart", "ondragstart"),
    ("ondrop", "ondrop"),
    ("ondurationchange", "ondurationchange"),
    ("onemptied", "onemptied"),
    ("onended", "onended"),
    ("onerror", "onerror"),
    ("onfocus", "onfocus"),
    ("onformdata", "onformdata"),
    ("oninput", "oninput"),
    ("oninvalid", "oninvalid"),
    ("onkeydown", "onkeydown"),
    ("onkeypress", "onkeypress"),
    ("onkeyup", "onkeyup"),
    ("onlanguagechange", "onlanguagechange"),
    ("onload", "onload"),
    ("onloadeddata", "onloadeddata"),
    ("onloadedmetadata", "onloadedmetadata"),
    ("onloadstart", "onloadstart"),
    ("onmousedown", "onmousedown"),
    ("onmouseenter", "onmouseenter"),
    ("onmouseleave", "onmouseleave"),
    ("onmousemove", "onmousemove"),
    ("onmouseout", "onmouseout"),
    ("onmouseover", "onmouseover"),
    ("onmouseup", "onmouseup"),
    ("onpause", "onpause"),
    ("onplay", "onplay"),
    ("onplaying", "onplaying"),
    ("onprogress", "onprogress"),
    ("onratechange", "onratechange"),
    ("onreset", "onreset"),
    ("onresize", "onresize"),
    ("onscroll", "onscroll"),
    ("onsecuritypolicyviolation", "onsecuritypolicyviolation"),
    ("onseeked", "onseeked"),
    ("onseeking", "onseeking"),
    ("onselect", "onselect"),
    ("onslotchange", "onslotchange"),
    ("onstalled", "onstalled"),
    ("onsubmit", "onsubmit"),
    ("onsuspend", "onsuspend"),
    ("ontimeupdate", "ontimeupdate"),
    ("ontoggle", "ontoggle"),
    ("onvolumechange", "onvolumechange"),
    ("onwaiting", "onwaiting"),
    ("onwebkitanimationend", "onwebkitanimationend"),
    ("onwebkitanimationiteration", "onwebkitanimationiteration"),
    ("onwebkitanimationstart", "onwebkitanimationstart"),
    ("onwebkittransitionend", "onwebkittransitionend"),
    ("onwheel", "onwheel"),
    ("accent", "accent"),
    ("accentunder", "accentunder"),
    ("columnalign", "columnalign"),
    ("columnlines", "columnlines"),
    ("columnspacing", "columnspacing"),
    ("columnspan", "columnspan"),
    ("depth", "depth"),
    ("display", "display"),
    ("displaystyle", "displaystyle"),
    ("fence", "fence"),
    ("frame", "frame"),
    ("framespacing", "framespacing"),
    ("linethickness", "linethickness"),
    ("lspace", "lspace"),
    ("mathbackground", "mathbackground"),
    ("mathcolor", "mathcolor"),
    ("mathsize", "mathsize"),
    ("mathvariant", "mathvariant"),
    ("maxsize", "maxsize"),
    ("minsize", "minsize"),
    ("movablelimits", "movablelimits"),
    ("notation", "notation"),
    ("rowalign", "rowalign"),
    ("rowlines", "rowlines"),
    ("rowspacing", "rowspacing"),
    ("rspace", "rspace"),
    ("scriptlevel", "scriptlevel"),
    ("separator", "separator"),
    ("stretchy", "stretchy"),
    ("symmetric", "symmetric"),
    ("voffset", "voffset"),
    ("xmlns", "xmlns"),
];
pub const GLOBAL: &[&str] = &["accesskey", "autocapitalize", "autofocus", "contenteditable", "dir", "draggable", "enterkeyhint", "hidden", "id", "inert", "inputmode", "is", "itemid", "itemprop", "itemref", "itemscope", "itemtype", "lang", "nonce", "part", "popover", "role", "slot", "spellcheck", "tabindex", "title", "translate", "virtualkeyboardpolicy"];
pub const ARIA: &[&str] = &["aria_activedescendant", "aria_atomic", "aria_autocomplete", "aria_busy", "aria_checked", "aria_colcount", "aria_colindex", "aria_colspan", "aria_controls", "aria_current", "aria_describedby", "aria_description", "aria_details", "aria_disabled", "aria_dropeffect", "aria_errormessage", "aria_expanded", "aria_flowto", "aria_grabbed", "aria_haspopup", "aria_hidden", "aria_invalid", "aria_keyshortcuts", "aria_label", "aria_labelledby", "aria_live", "aria_modal", "aria_multiline", "aria_multiselectable", "aria_orientation", "aria_owns", "aria_placeholder", "aria_posinset", "aria_pressed", "aria_readonly", "aria_relevant", "aria_required", "aria_roledescription", "aria_rowcount", "aria_rowindex", "aria_rowspan", "aria_selected", "aria_setsize", "aria_sort", "aria_valuemax", "aria_valuemin", "aria_valuenow", "aria_valuetext"];
pub const EVENTS: &[(&str, &str)] = &[
    ("afterprint", "Event"),
    ("beforeprint", "Event"),
    ("beforeunload", "BeforeUnloadEvent"),
    ("gamepadconnected", "GamepadEvent"),
    ("gamepaddisconnected", "GamepadEvent"),
    ("hashchange", "HashChangeEvent"),
    ("languagechange", "Event"),
    ("message", "MessageEvent"),
    ("messageerror", "MessageEvent"),
    ("offline", "Event"),
    ("online", "Event"),
    ("pagehide", "PageTransitionEvent"),
    ("pageshow", "PageTransitionEvent"),
    ("popstate", "PopStateEvent"),
    ("rejectionhandled", "PromiseRejectionEvent"),
    ("storage", "StorageEvent"),
    ("unhandledrejection", "PromiseRejectionEvent"),
    ("unload", "Event"),
    ("abort", "UiEvent"),
    ("animationcancel", "AnimationEvent"),
    ("animationend", "AnimationEvent"),
    ("animationiteration", "AnimationEvent"),
    ("animationstart", "AnimationEvent"),
    ("auxclick", "MouseEvent"),
    ("beforeinput", "InputEvent"),
    ("beforetoggle", "Event"),
    ("blur", "FocusEvent"),
    ("canplay", "Event"),
    ("canplaythrough", "Event"),
    ("change", "Event"),
    ("click", "MouseEvent"),
    ("close", "Event"),
    ("compositionend", "CompositionEvent"),
    ("compositionstart", "CompositionEvent"),
    ("compositionupdate", "CompositionEvent"),
    ("contextmenu", "MouseEvent"),
    ("cuechange", "Event"),
    ("dblclick", "MouseEvent"),
    ("drag", "DragEvent"),
    ("dragend", "DragEvent"),
    ("dragenter", "DragEvent"),
    ("dragleave", "DragEvent"),
    ("dragover", "DragEvent"),
    ("dragstart", "DragEvent"),
    ("drop", "DragEvent"),
    ("durationchange", "Event"),
    ("emptied", "Event"),
    ("ended", "Event"),
    ("error", "ErrorEvent"),
    ("focus", "FocusEvent"),
    ("focusin", "FocusEvent"),
    ("focusout", "FocusEvent"),
    ("formdata", "Event"),
    ("gotpointercapture", "PointerEvent"),
    ("input", "Event"),
    ("invalid", "Event"),
    ("keydown", "KeyboardEvent"),
    ("keypress", "KeyboardEvent"),
    ("keyup", "KeyboardEvent"),
    ("load", "Event"),
    ("loadeddata", "Event"),
    ("loadedmetadata", "Event"),
    ("loadstart", "Event"),
    ("lostpointercapture", "PointerEvent"),
    ("mousedown", "MouseEvent"),
    ("mouseenter", "MouseEvent"),
    ("mouseleave", "MouseEvent"),
    ("mousemove", "MouseEvent"),
    ("mouseout", "MouseEvent"),
    ("mouseover", "MouseEvent"),
    ("mouseup", "MouseEvent"),
    ("pause", "Event"),
    ("play", "Event"),
    ("playing", "Event"),
    ("pointercancel", "PointerEvent"),
    ("pointerdown", "PointerEvent"),
    ("pointerenter", "PointerEvent"),
    ("pointerleave", "PointerEvent"),
    ("pointermove", "PointerEvent"),
    ("pointerout", "PointerEvent"),
    ("pointerover", "PointerEvent"),
    ("pointerup", "PointerEvent"),
    ("progress", "ProgressEvent"),
    ("ratechange", "Event"),
    ("reset", "Event"),
    ("resize", "UiEvent"),
    ("scroll", "Event"),
    ("scrollend", "Event"),
    ("securitypolicyviolation", "SecurityPolicyViolationEvent"),
    ("seeked", "Event"),
    ("seeking", "Event"),
    ("select", "Event"),
    ("selectionchange", "Event"),
    ("selectstart", "Event"),
    ("slotchange", "Event"),
    ("stalled", "Event"),
    ("submit", "SubmitEvent"),
    ("suspend", "Event"),
    ("timeupdate", "Event"),
    ("toggle", "Event"),
    ("touchcancel", "TouchEvent"),
    ("touchend", "TouchEvent"),
    ("touchmove", "TouchEvent"),
    ("touchstart", "TouchEvent"),
    ("transitioncancel", "TransitionEvent"),
    ("transitionend", "TransitionEvent"),
    ("transitionrun", "TransitionEvent"),
    ("transitionstart", "TransitionEvent"),
    ("volumechange", "Event"),
    ("waiting", "Event"),
    ("webkitanimationend", "Event"),
    ("webkitanimationiteration", "Event"),
    ("webkitanimationstart", "Event"),
    ("webkittransitionend", "Event"),
    ("wheel", "WheelEvent"),
    ("DOMContentLoaded", "Event"),
    ("devicemotion", "DeviceMotionEvent"),
    ("deviceorientation", "DeviceOrientationEvent"),
    ("orientationchange", "Event"),
    ("copy", "Event"),
    ("cut", "Event"),
    ("paste", "Event"),
    ("fullscreenchange", "Event"),
    ("fullscreenerror", "Event"),
    ("pointerlockchange", "Event"),
    ("pointerlockerror", "Event"),
    ("readystatechange", "Event"),
    ("visibilitychange", "Event"),
];
