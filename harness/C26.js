"use strict";
// C26 HTML parsing produces text and formatting that fit each other
exports.title = "HTML parsing produces text and formatting that fit each other";
exports.assumptions = [
  "white space around the whole input is not part of it (the parser trims it)",
  "elements that are never closed mark nothing; a '>' ends a tag even inside a quoted attribute value",
  "the text of links consists of letters and digits behind a given scheme and host (or of arbitrary characters where the address is not looked into)",
];
const KIND = { b: "bold", strong: "bold", i: "italic", em: "italic", s: "strikethrough", strike: "strikethrough", del: "strikethrough", u: "underline", ins: "underline", "tg-spoiler": "spoiler", span: "spoiler", code: "code", pre: "pre", blockquote: "blockquote", a: "textLink", "tg-emoji": "customEmoji" };
const TAGS = Object.keys(KIND);
const PRIORITY = { blockquote: 0, pre: 11, code: 20, dateTime: 30, textLink: 49, textMention: 49, bold: 90, italic: 91, underline: 92, strikethrough: 93, spoiler: 94, customEmoji: 99 };
// the order promised for ranges: by start, then longest first, then by kind
const sorted = (es) => es.map((e, i) => [e, i]).sort(([a, i], [b, j]) => a.offset - b.offset || b.length - a.length || PRIORITY[a.type] - PRIORITY[b.type] || i - j).map(([e]) => e);
const OPEN = { span: '<span class="tg-spoiler">', a: '<a href="https://e.org/x">', "tg-emoji": '<tg-emoji emoji-id="77">' };
const EXTRA = { a: { url: "https://e.org/x" }, "tg-emoji": { customEmojiId: "77" }, pre: { language: "" } };
const SPACES = [32, 9, 13, 10, 0, 11];
// characters that mean nothing to the parser
const plain = (S, name, n = 1) => { const s = S.str(name, n, 0, 0xd7ff); for (let i = 0; i < n; i++) S.assume((s.charCodeAt(i) !== 60) & (s.charCodeAt(i) !== 38)); return s; };
const astral = (S, name) => S.str(name + ".high", 1, 0xd800, 0xdbff) + S.str(name + ".low", 1, 0xdc00, 0xdfff);
const attempt = (S, f) => { const { InputError } = S.load("0_errors.ts"), r = S.attempt(f); if (!r.ok) S.assert(r.error instanceof InputError, "parsing fails with something else than an input error"); return r.ok ? { v: r.value } : { e: r.error }; };
exports.cases = (tier) => {
  const cs = [];
  const deep = tier !== "quick";
  const parse = (S, html, secret) => { const { parseHtml } = S.load("client/0_html.ts"); return attempt(S, () => parseHtml(html, ...(secret ? [true] : []))); };
  const expect = (S, html, text, entities, secret) => {
    const { v, e } = parse(S, html, secret);
    S.assert(!e, "well-formed input is rejected");
    if (!v) return;
    S.assertEq(v[0], text, "the text is not the input's text");
    S.assertEq(v[1], sorted(entities.filter((e) => e.length)), "the formatting does not mark exactly the contents of the elements");
  };
  // a document under construction
  const doc = (S) => {
    let n = 0;
    const d = { html: "", text: "", entities: [], plain(k = 1) { const s = plain(S, "t" + n++, k); d.html += s; d.text += s; return d; }, astral() { const s = astral(S, "t" + n++); d.html += s; d.text += s; return d; }, raw(html, text = "") { d.html += html; d.text += text; return d; },
      element(tag, inside, { open = OPEN[tag] ?? `<${tag}>`, close = `</${tag}>`, entity = { type: KIND[tag], ...EXTRA[tag] } } = {}) { d.html += open; const offset = d.text.length; inside(); d.html += close; if (entity) d.entities.push({ ...entity, offset, length: d.text.length - offset }); return d; },
      // pre around code (or the reverse) over the same range
    };
    return d;
  };
  const finish = (S, d, secret) => expect(S, "." + d.html + ".", "." + d.text + ".", d.entities.map((e) => ({ ...e, offset: e.offset + 1 })), secret);
  // ---- nesting: two elements in one, text everywhere
  const groups = [TAGS.slice(0, 4), TAGS.slice(4, 8), TAGS.slice(8, 12), TAGS.slice(12)];
  groups.forEach((outer, g) => cs.push({ name: "elements-" + (g + 1), bounds: `every element among ${outer.join(", ")} around every supported element, which is first, last or alone in it and around another one or none; arbitrary text`, run: async (S) => {
    const a = S.choose("outer", outer), b = S.choose("inner", TAGS), pos = S.choose("position", [0, 1, 2, 3]);
    const third = pos & 1 ? undefined : "i";
    const d = doc(S);
    d.element(a, () => {
      if (pos === 1 || pos === 2) d.plain();
      d.element(b, () => { d.plain(); if (third) d.element(third, () => d.plain()); });
      if (pos === 2 || pos === 3) d.plain();
    });
    d.plain();
    // a preformatted block that consists of a code element without a language stays as it is
    finish(S, d);
  } }));
  cs.push({ name: "neighbours", bounds: "every two supported elements side by side, empty elements, surrogate pairs, secret or not", run: async (S) => {
    const a = S.choose("first", TAGS), b = S.choose("second", TAGS), shape = S.choose("shape", ["full", "first empty", "second empty", "astral"]);
    const secret = (TAGS.indexOf(a) & 1) === 1;
    const d = doc(S);
    d.element(a, () => { if (shape === "astral") d.astral(); else if (shape !== "first empty") d.plain(); });
    if (shape === "full") d.plain();
    d.element(b, () => { if (shape !== "second empty") d.plain(); });
    finish(S, d, secret);
  } });
  cs.push({ name: "case-and-closing", bounds: "every letter of every tag in either case, closing tags by name with spaces, or without a name", run: async (S) => {
    const tag = S.choose("tag", TAGS.filter((t) => !["a", "span", "tg-emoji"].includes(t)));
    const any = (name, t) => { let r = ""; const bits = S.bytes(name, t.length); for (let i = 0; i < t.length; i++) { const c = t.charCodeAt(i); r += c === 45 ? "-" : String.fromCharCode(c ^ ((bits[i] & 1) << 5)); } return r; };
    const close = S.choose("close", ["name", "spaces", "empty"]);
    const d = doc(S);
    d.element(tag, () => d.plain(), { open: `<${any("open", tag)}>`, close: close === "empty" ? "</>" : close === "spaces" ? `</ ${any("close", tag)} >` : `</${any("close", tag)}>` });
    finish(S, d);
  } });
  cs.push({ name: "unexpected", bounds: "every pair of opening and closing tag; every tag name of one or two characters", run: async (S) => {
    if (S.choose("what", ["pair", "name"]) === "pair") {
      const a = S.choose("open", TAGS), b = S.choose("close", TAGS), sp = S.choose("space", ["", " "]);
      const t = plain(S, "t");
      const { e } = parse(S, `${OPEN[a] ?? `<${a}>`}${t}</${sp}${b}${sp}>`);
      S.assertEq(!!e, a !== b, "a closing tag for another element is accepted, or a matching one is rejected");
    } else {
      const n = S.choose("length", [1, 2]), close = S.choose("closing", [false, true]);
      const t = S.str("name", n, 33, 0x7e);
      for (let i = 0; i < n; i++) S.assume((t.charCodeAt(i) !== 62) & (t.charCodeAt(i) !== 47));
      const { v, e } = parse(S, close ? `</${t}>x` : `<${t}>x</>`);
      const l = t.toLowerCase();
      const known = ["a", "b", "i", "s", "u", "em"].map((k) => l === k).reduce((x, y) => x | y, false);
      if (e) S.assert(close || !known, "an element is rejected"); else { S.assert(known && !close, "an unknown element, or the end of an element never begun, is accepted"); S.assertEq(v[0], "x", "the text is not the input's text"); }
    }
  } });
  // ---- preformatted blocks with a language
  cs.push({ name: "languages", bounds: "pre around code and code around pre, over the same or another range, with every language of three characters", run: async (S) => {
    const lang = S.str("language", 3, 33, 0xd7ff); for (let i = 0; i < 3; i++) { const c = lang.charCodeAt(i); S.assume((c !== 60) & (c !== 62) & (c !== 38) & (c !== 34) & (c !== 39)); }
    const order = S.choose("order", ["pre", "code"]), shape = S.choose("shape", ["same", "before", "after", "none"]), quote = S.choose("quote", ['"', "'", ""]);
    const code = shape === "none" ? "<code>" : `<code class=${quote}language-${lang}${quote}>`;
    const d = doc(S);
    const inner = order === "pre" ? "code" : "pre";
    const open = (t) => t === "code" ? { open: code } : {};
    d.element(order, () => { if (shape === "before") d.plain(); d.element(inner, () => d.plain(2), open(inner)); if (shape === "after") d.plain(); }, open(order));
    if (shape === "same") { const [e] = d.entities; d.entities = [{ type: "pre", language: lang, offset: e.offset, length: e.length }]; }
    finish(S, d);
  } });
  cs.push({ name: "language siblings", bounds: "a preformatted block and a code element with a language side by side, of the same or another length, next to each other or apart, in either order, plain or inside another element", run: async (S) => {
    const lang = S.str("language", 2, 97, 122), order = S.choose("order", [["pre", "code"], ["code", "pre"]]), n = S.choose("length", [1, 2]), apart = S.choose("apart", [false, true]), around = S.choose("around", ["", "b", "blockquote", "pre"]);
    if (around === "pre" && !apart) return; // an element of the same start as the one around it: covered by "languages"
    const d = doc(S);
    const both = () => { if (around === "pre") d.plain(); d.element(order[0], () => d.plain(2), order[0] === "code" ? { open: `<code class="language-${lang}">` } : {}); if (apart) d.plain(); d.element(order[1], () => d.plain(n), order[1] === "code" ? { open: `<code class="language-${lang}">` } : {}); };
    if (around) d.element(around, both); else both();
    finish(S, d);
  } });
  // ---- character references
  cs.push({ name: "decimal-references", bounds: "every decimal character reference of up to six digits (thorough: eight), ended by a semicolon or not", run: async (S) => {
    const n = S.choose("digits", deep ? [1, 2, 3, 4, 5, 6, 7, 8] : [1, 2, 3, 5, 6]), semi = S.choose("semicolon", [";", ""]);
    const digits = S.str("digits", n, 48, 57);
    let code = 0; for (let i = 0; i < n; i++) code = code * 10 + (digits.charCodeAt(i) - 48);
    const literal = code === 0 || code >= 0x10ffff || n + 2 >= 10;
    const text = literal ? `&#${digits}${semi}` : code < 0x10000 ? String.fromCharCode(code) : String.fromCharCode(0xd800 + ((code - 0x10000) >> 10)) + String.fromCharCode(0xdc00 + ((code - 0x10000) & 1023));
    const tail = plain(S, "tail"); S.assume((tail.charCodeAt(0) < 48) | (tail.charCodeAt(0) > 57)); S.assume(tail.charCodeAt(0) !== 59);
    const d = doc(S);
    d.element("b", () => d.raw(`&#${digits}${semi}`, text)).raw(tail, tail);
    finish(S, d);
  } });
  cs.push({ name: "hexadecimal-references", bounds: "every hexadecimal character reference of up to five digits in either case (thorough: seven), ended by a semicolon or not", run: async (S) => {
    const n = S.choose("digits", deep ? [1, 2, 3, 4, 5, 6, 7] : [1, 2, 4, 5]), semi = S.choose("semicolon", [";", ""]);
    const b = S.bytes("value", n), upper = S.choose("case", ["lower", "upper", "mixed"]);
    let digits = "", code = 0;
    for (let i = 0; i < n; i++) { const v = b[i] & 15; code = code * 16 + v; digits += String.fromCharCode(v + (v < 10 ? 48 : upper === "upper" || upper === "mixed" && i & 1 ? 55 : 87)); }
    const literal = code === 0 || code >= 0x10ffff || n + 3 >= 10;
    const text = literal ? `&#x${digits}${semi}` : code < 0x10000 ? String.fromCharCode(code) : String.fromCharCode(0xd800 + ((code - 0x10000) >> 10)) + String.fromCharCode(0xdc00 + ((code - 0x10000) & 1023));
    const d = doc(S);
    d.element("b", () => d.raw(`&#x${digits}${semi}`, text)).raw(" .", " .");
    finish(S, d);
  } });
  cs.push({ name: "named-references", bounds: "every reference of up to four lower-case letters, ended by a semicolon or anything else; decoded once only", run: async (S) => {
    const n = S.choose("letters", [0, 1, 2, 3, 4]), semi = S.choose("semicolon", [";", ""]);
    const name = S.str("name", n, 97, 122);
    const tail = plain(S, "tail"); S.assume((tail.charCodeAt(0) < 97) | (tail.charCodeAt(0) > 122)); S.assume((tail.charCodeAt(0) !== 59) & (tail.charCodeAt(0) !== 35));
    const known = [["amp", "&"], ["quot", '"'], ["lt", "<"], ["gt", ">"]].find(([k]) => k === name);
    const d = doc(S);
    d.element("i", () => d.raw(`&${name}${semi}`, known ? known[1] : `&${name}${semi}`)).raw(tail, tail);
    // "&amp;lt;" is the text "&lt;"
    const twice = S.choose("twice", ["amp", "lt", "quot", "gt", "#60"]);
    d.raw(`&amp;${twice};`, `&${twice};`);
    finish(S, d);
  } });
  // ---- attributes
  const values = (S, name, quote, n = 2) => { const s = S.str(name, n, 0, 0xd7ff); for (let i = 0; i < n; i++) { const c = s.charCodeAt(i); S.assume((c !== 62) & (c !== 38)); if (quote) S.assume(c !== quote.charCodeAt(0)); else { for (const x of SPACES) S.assume(c !== x); S.assume((c !== 34) & (c !== 39)); } } return s; };
  cs.push({ name: "attributes", bounds: "lists of up to three attributes, each without a value, or with a quoted or unquoted value of two arbitrary characters; every white space character around the parts", run: async (S) => {
    const { parseAttributes } = S.load("client/0_html.ts");
    const NAMES = ["href", "x", "emoji-id"];
    const n = S.choose("count", deep ? [1, 2, 3] : [1, 2]);
    let html = "", want = {};
    const space = (name) => { const k = S.str(name, 1, 0, 32), c = k.charCodeAt(0); S.assume(SPACES.map((x) => c === x).reduce((a, b) => a | b, false)); return k; };
    for (let i = 0; i < n; i++) {
      const form = S.choose("form" + i, ["bare", '"', "'", "", "spaced", "reference", "empty"]);
      const q = form === "spaced" || form === "reference" ? '"' : form;
      html += (i ? space("s" + i) : " ") + NAMES[i];
      if (form === "bare") { want[NAMES[i]] = ""; continue; }
      if (form === "empty") { html += '=""'; want[NAMES[i]] = ""; continue; }
      const v = values(S, "v" + i, q);
      html += (form === "spaced" ? space("before" + i) : "") + "=" + (form === "spaced" ? space("after" + i) : "") + q + v + (form === "reference" ? "&lt;&#65;" : "") + q;
      want[NAMES[i]] = v + (form === "reference" ? "<A" : "");
    }
    const r = attempt(S, () => parseAttributes(Array.from(html)));
    S.assert(!r.e, "a list of attributes is rejected");
    S.assertEq(r.v, want, "the attributes are not the given ones");
  } });
  cs.push({ name: "attributes-of-elements", bounds: "an attribute that matters before or after one that does not, with and without a value", run: async (S) => {
    const other = S.choose("other", ["", "x", "x=", 'x="1"', "x=1", "x = '1'"]), after = S.choose("after", [false, true]);
    if (other === "x=" && !after) return;
    const tag = S.choose("tag", ["a", "blockquote", "span", "tg-emoji"]);
    const at = { a: 'href="https://e.org/x"', blockquote: "expandable", span: 'class="tg-spoiler"', "tg-emoji": 'emoji-id="77"' }[tag];
    const d = doc(S);
    d.element(tag, () => d.plain(2), { open: `<${tag} ${after ? at + (other && " ") + other : other + (other && " ") + at}>`, entity: { type: KIND[tag], ...EXTRA[tag], ...(tag === "blockquote" ? { collapsible: true } : {}) } });
    finish(S, d);
  } });
  cs.push({ name: "spoilers", bounds: "every class of ten characters that differs from the one for spoilers in at most two places", run: async (S) => {
    const at = S.choose("at", [0, 1, 4, 8]), c = values(S, "c", '"');
    const cls = "tg-spoiler".slice(0, at) + c + "tg-spoiler".slice(at + 2);
    const r = parse(S, `<span class="${cls}">x</span>`);
    S.assertEq(!!r.e, !(cls === "tg-spoiler"), "a span that is no spoiler is accepted, or a spoiler is rejected");
    if (r.v) S.assertEq(r.v, ["x", [{ type: "spoiler", offset: 0, length: 1 }]], "a spoiler is not marked");
  } });
  cs.push({ name: "custom-emojis", bounds: "every identifier of three characters", run: async (S) => {
    const id = values(S, "id", '"', 3);
    const r = parse(S, `.<tg-emoji emoji-id="${id}">x</tg-emoji>`);
    const digit = (i) => (id.charCodeAt(i) >= 48) & (id.charCodeAt(i) <= 57);
    const ok = digit(0) & digit(1) & digit(2) & (id.charCodeAt(0) !== 48);
    S.assertEq(!!r.e, !ok, "an invalid identifier is accepted, or a valid one is rejected");
    if (r.v) S.assertEq(r.v, [".x", [{ type: "customEmoji", offset: 1, length: 1, customEmojiId: id }]], "a custom emoji is not marked");
  } });
  cs.push({ name: "mentions", bounds: "every user identifier of up to seven digits, with and without a slash, secret or not", run: async (S) => {
    const n = S.choose("digits", deep ? [1, 2, 3, 4, 5, 6, 7] : [1, 4, 7]), slash = S.choose("slash", ["", "/"]), secret = S.choose("secret", [false, true]);
    const id = S.str("id", n, 48, 57);
    let value = 0; for (let i = 0; i < n; i++) value = value * 10 + (id.charCodeAt(i) - 48);
    const t = plain(S, "t", 2);
    const r = parse(S, `.<a href="tg://user${slash}?id=${id}">${t}</a>.`, secret);
    S.assertEq(!!r.e, value === 0, "a mention of nobody is accepted, or a mention is rejected");
    if (r.v) S.assertEq(r.v, ["." + t + ".", [{ type: "textMention", offset: 1, length: 2, userId: value }]], "a mention does not name the user");
  } });
  cs.push({ name: "times", bounds: "every point in time of up to six digits, with and without a format of two letters or digits; in secret chats a link", run: async (S) => {
    const n = S.choose("digits", deep ? [1, 2, 3, 4, 5, 6] : [1, 3, 6]), fmt = S.choose("format", [false, true]), secret = S.choose("secret", [false, true]);
    const id = S.str("id", n, 48, 57), f = fmt ? S.str("format", 2, 97, 122) : undefined;
    let value = 0; for (let i = 0; i < n; i++) value = value * 10 + (id.charCodeAt(i) - 48);
    const t = plain(S, "t", 2), url = `tg://time?unix=${id}${fmt ? "&format=" + f : ""}`;
    // "&format" is no reference: letters that name none stay as they are
    const r = parse(S, `.<a href="${url}">${t}</a>.`, secret);
    if (!secret) S.assertEq(!!r.e, id.charCodeAt(0) === 48, "an invalid time is accepted, or a valid one is rejected"); else S.assert(!r.e, "a link is rejected");
    if (r.v) S.assertEq(r.v, ["." + t + ".", [secret ? { type: "textLink", offset: 1, length: 2, url } : { type: "dateTime", offset: 1, length: 2, dateTime: value, format: f }]], "a time is not marked as given");
  } });
  cs.push({ name: "links", bounds: "links with arbitrary letters and digits in the path, with and without a scheme, or whose text is the address; text with white space before them", run: async (S) => {
    const form = S.choose("form", ["given", "no scheme", "text", "text without scheme", "unsupported", "no address"]);
    const p = S.str("path", 3, 97, 122), t = plain(S, "t", 2), before = S.choose("before", ["", "a b\n"]);
    const proto = S.choose("proto", form === "given" || form === "text" ? ["http", "https", "ton", "tg"] : [form === "unsupported" ? "ftp" : "http"]);
    const url = `${proto}://e.org/${p}`;
    let html, text = t, want;
    if (form === "given" || form === "unsupported") { html = `<a href="${url}">${t}</a>`; want = url; }
    else if (form === "no scheme") { html = `<a href="e.org/${p}">${t}</a>`; want = url; }
    else if (form === "text") { html = `<a>${url}</a>`; text = url; want = url; }
    else if (form === "text without scheme") { text = "e.org/" + p; html = `<a>${text}</a>`; want = url; }
    else { text = S.choose("text", ["no address", "a b", " "]); html = `<a>${text}</a>`; }
    const r = parse(S, `.${before}${html}.`);
    S.assertEq(!!r.e, form === "unsupported", "a link of an unsupported kind is accepted, or a link is rejected");
    if (r.v) S.assertEq(r.v, ["." + before + text + ".", want ? [{ type: "textLink", offset: 1 + before.length, length: text.length, url: want }] : []], "a link does not mark its text with its address");
  } });
  // ---- anything
  const within = (S, text, entities) => {
    for (const e of entities) S.assert((e.length > 0) & (e.offset >= 0) & (e.offset + e.length <= text.length), "a range lies outside the text or is empty");
    for (const a of entities) for (const b of entities) S.assert(!((a.offset < b.offset) & (b.offset < a.offset + a.length) & (a.offset + a.length < b.offset + b.length)), "two ranges overlap partially");
  };
  cs.push({ name: "no-markup", bounds: `every text of up to ${deep ? 5 : 3} characters without markup, surrogate pairs included`, run: async (S) => {
    const n = S.choose("length", deep ? [0, 1, 2, 3, 4, 5] : [0, 1, 2, 3]);
    const s = S.str("s", n); for (let i = 0; i < n; i++) S.assume((s.charCodeAt(i) !== 60) & (s.charCodeAt(i) !== 38));
    const secret = S.choose("secret", [false, true]);
    const inside = S.choose("inside", [false, true]);
    if (inside) expect(S, "." + s + ".", "." + s + ".", [], secret); else expect(S, s, s.trim(), [], secret);
  } });
  const first = ["<", "</", "<b>", "<b>x</", "<i>&", "<b", "&", "&#", ""];
  for (const prefix of first) cs.push({ name: "anything-" + prefix, bounds: `every text that consists of "${prefix}" and ${deep ? 6 : 4} further ASCII characters other than a space`, run: async (S) => {
    const n = deep ? 6 : 4;
    const s = S.str("s", n, 0, 127); for (let i = 0; i < n; i++) S.assume(s.charCodeAt(i) !== 32);
    const secret = S.choose("secret", deep ? [false, true] : [false]);
    const r = parse(S, prefix + s, secret);
    if (r.e) return S.cover("rejected");
    S.cover("parsed");
    within(S, r.v[0], r.v[1]);
    S.assert(r.v[0].length <= prefix.length + n, "the text is longer than the input");
  } });
  return cs;
};
