//! Words that mean something in HTML and around it. The system treats none of them in a special way
//! except the void and raw text element names, so each has to come through unchanged everywhere.

/// Elements of HTML, current and obsolete.
pub const ELEMENTS: &[&str] = &["a", "abbr", "acronym", "address", "applet", "area", "article", "aside", "audio", "b", "base", "basefont", "bdi", "bdo", "bgsound", "big", "blink", "blockquote",
    "body", "br", "button", "canvas", "caption", "center", "cite", "code", "col", "colgroup", "command", "content", "data", "datalist", "dd", "del", "details", "dfn", "dialog", "dir", "div", "dl",
    "dt", "element", "em", "embed", "fencedframe", "fieldset", "figcaption", "figure", "font", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup",
    "hr", "html", "i", "iframe", "image", "img", "input", "ins", "isindex", "kbd", "keygen", "label", "legend", "li", "link", "listing", "main", "map", "mark", "marquee", "math", "menu",
    "menuitem", "meta", "meter", "multicol", "nav", "nextid", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "output", "p", "param", "picture", "plaintext",
    "portal", "pre", "progress", "q", "rb", "rp", "rt", "rtc", "ruby", "s", "samp", "script", "search", "section", "select", "shadow", "slot", "small", "source", "spacer", "span", "strike",
    "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "track", "tt", "u", "ul", "var", "video",
    "wbr", "xmp", "path", "circle", "rect", "use", "g", "foreignObject", "linearGradient", "mi", "mo", "mn", "annotation-xml", "x-y", "font-face", "svg:a", "xsl:if"];

/// Attributes of HTML, and of things built on it.
pub const ATTRIBUTES: &[&str] = &["abbr", "accept", "accept-charset", "accesskey", "action", "allow", "allowfullscreen", "alt", "aria-hidden", "aria-label", "as", "async", "autocapitalize", "autocomplete",
    "autofocus", "autoplay", "bgcolor", "border", "charset", "checked", "cite", "class", "color", "cols", "colspan", "compact", "content", "contenteditable", "controls", "coords",
    "crossorigin", "data", "data-id", "data-a-b", "data-", "datetime", "declare", "decoding", "default", "defer", "dir", "dirname", "disabled", "download", "draggable", "enctype", "enterkeyhint", "for", "form",
    "formaction", "formmethod", "formnovalidate", "formtarget", "headers", "height", "hidden", "high", "href", "hreflang", "http-equiv", "id", "imagesizes", "imagesrcset", "inert", "inputmode", "integrity",
    "is", "ismap", "itemid", "itemprop", "itemref", "itemscope", "itemtype", "key", "kind", "label", "lang", "list", "loading", "loop", "low", "max", "maxlength", "media", "method", "min", "minlength", "multiple",
    "muted", "name", "nohref", "nomodule", "nonce", "noresize", "noshade", "novalidate", "nowrap", "onclick", "onerror", "onload", "open", "optimum", "pattern", "ping", "placeholder", "playsinline", "popover",
    "poster", "preload", "property", "readonly", "referrerpolicy", "rel", "required", "rev", "reversed", "role", "rows", "rowspan", "rules", "sandbox", "scope", "scoped", "seamless", "selected", "shadowrootmode", "shape", "size",
    "sizes", "slot", "span", "spellcheck", "src", "srcdoc", "srclang", "srcset", "start", "step", "style", "summary", "tabindex", "target", "title", "translate", "truespeed", "type", "typemustmatch",
    "usemap", "value", "viewBox", "width", "wrap", "xml:lang", "xmlns", "xmlns:xlink", "xlink:href", "v-if", "v-on:click", ":key", "@click", "#ref", "*ngIf", "[prop]", "(click)", "[(ngModel)]", "{x}", "x-data", "hx-get", "on:click", "_", "$x", "%x", "!", "?", "text", "key", "value2"];

/// Values that mean something in some attribute.
pub const VALUES: &[&str] = &["", " ", "true", "false", "TRUE", "0", "1", "-1", "on", "off", "yes", "none", "auto", "null", "undefined", "100%", "10px", " a  b ", "a b a", "a,b", "a; b:c;", "x=1", "javascript:void(0)",
    "https://x.y/?a=1&b=2#c", "//x/y/", "./../a", "%20%C3%A9", "#id", ".x", "\n", "\t a\r\n b", "data:text/html,<b>x</b>", "a&amp;b", "&quot;", "&#34;", "it's", "{{x}}", "${x}", "url('x')", "text/html; charset=utf-8",
    "en-US", "2020-01-01", "\u{a0}", "\u{202e}", "\u{feff}x", "_blank", "A", "\\", "/", ">", "<!--x-->", "</script>"];

/// Pieces of text that mean something somewhere.
pub const WORDS: &[&str] = &["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&nbsp;", "&copy;", "&AMP;", "&LT;", "&amp", "&lt", "&copy", "&eacute;", "&euro;", "&NotEqualTilde;", "&bogus;", "&;", "&", "& ", "&#", "&#;",
    "&#38;", "&#60;", "&#62;", "&#34;", "&#39;", "&#160;", "&#x26;", "&#x3c;", "&#x3E;", "&#X22;", "&#x27;", "&#xA0;", "&#0038;", "&#x00026;", "&#38", "&#x3c", "&#0;", "&#x110000;", "&#xD800;", "&#128;", "&#13;", "&#10;",
    "&amp;amp;", "&amp;lt;", "&amp;#38;", "&ampx", "&ltx;", "%26", "%3C", "%20", "%", "%%", "%s", "%d", "\\", "\\\\", "\\n", "\\u003c", "\\x3c", "\\\"", "\\'", "'", "''", "`", "\u{b4}", "$", "$1", "$&", "${x}", "#{x}", "{{", "}}", "{{x}}", "{{{x}}}",
    "{%", "%}", "{% if x %}", "{#", "{", "}", "{}", "{:?}", "[", "]", "[]", "[[x]]", "(", ")", "()", "%>", "?>", "]]>", "]]", "--", "--!", "-", "!", "?", "*", "**", "/*", "*/", "//", "///", "@", "@media", "#", "##", "~", "^", "|", "||", "+", ",", ";", ":", "::",
    "=", "==", "=>", "\r\n", "\r", "\n", "\n\n", "\t", "  ", " \n ", "\u{c}", "\u{b}", "\u{a0}", "\u{2003}", "\u{200b}", "\u{200d}", "\u{2028}", "\u{2029}", "\u{85}", "\u{feff}", "\u{202e}", "\u{0}", "\u{7f}", "\u{80}", "\u{ad}", "\u{fffd}", "\u{ffff}", "\u{1b}[0m",
    "e\u{301}", "\u{e9}", "\u{df}", "\u{fb01}", "\u{130}", "\u{131}", "\u{1f468}\u{200d}\u{1f469}", "\u{1f1e9}\u{1f1ea}", "\u{e000}", "\u{10ffff}", "\u{3000}", "\u{ff1c}", "\u{2039}", "\u{201c}", "\u{2019}",
    "<", ">", "\"", "<<", ">>", "<>", "</>", "<!", "<!>", "<!x>", "<?", "<?xml version=\"1.0\"?>", "<?php", "<%", "<%= x %>", "<![CDATA[", "<![CDATA[x]]>", "<!--", "-->", "--!>", "<!-->", "<!--->", "<!-- -->", "<!--[if IE]>", "<![endif]-->",
    "<!--#include -->", "<!ELEMENT x>", "<!ENTITY x \"y\">", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\">", "html", "HTML", " html", "html5", "html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\"", "html SYSTEM \"about:legacy-compat\"",
    "<br>", "<br/>", "<p>", "</p>", "<b>x</b>", "<script>", "</script>", "<style>", "</style>", "</title>", "</textarea>", "<a b>", "<a b=\"c\">", "<a b='c'>", "<a b=c>", "a b", "b=\"c\"", "b='c'", "b=c", "b=", "=c", "a/b", "/", "//>", "/>", "/ >",
    "javascript:", "data:,", "http://x/?a&b", "mailto:x@y", "true", "false", "null", "NaN", "0", "-0", "1e9", "0x10", "1.5", "None", "Some", "a", "A", "class", "id", "xmlns", "xml:lang", "on", "data-x", "__proto__", "CON", "..", ".", "../", "~/"];
