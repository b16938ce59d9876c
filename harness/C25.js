"use strict";
// C25 Markdown parsing produces text and formatting that fit each other
exports.title = "Markdown parsing produces text and formatting that fit each other";
exports.assumptions = [
  "the text of links consists of letters and digits behind a given scheme and host, or has no scheme at all",
  "underlined and italic text do not touch in the structured cases (three underscores in a row are ambiguous; the free texts cover them)",
];
const PRIORITY = { blockquote: 0, pre: 11, code: 20, dateTime: 30, textLink: 49, textMention: 49, bold: 90, italic: 91, underline: 92, strikethrough: 93, spoiler: 94, customEmoji: 99 };
const sorted = (es) => es.map((e, i) => [e, i]).sort(([a, i], [b, j]) => a.offset - b.offset || b.length - a.length || PRIORITY[a.type] - PRIORITY[b.type] || i - j).map(([e]) => e);
const RESERVED = "_*[]()~`>#+-=|{}.!";
const KINDS = {
  bold: ["*", "*"], italic: ["_", "_"], underline: ["__", "__"], strikethrough: ["~", "~"], spoiler: ["||", "||"], code: ["`", "`"],
  pre: ["```js\n", "```", { language: "js" }], textLink: ["[", "](https://e.org/x)", { url: "https://e.org/x" }], textMention: ["[", "](tg://user?id=77)", { userId: 77 }],
  customEmoji: ["![", "](tg://emoji?id=99)", { customEmojiId: "99" }], dateTime: ["![", "](tg://time?unix=88)", { dateTime: 88, format: undefined }],
};
const NAMES = Object.keys(KINDS), FLAT = new Set(["code", "pre"]);
const is = (c, chars) => { let r = false; for (let i = 0; i < chars.length; i++) r = r | (c === chars.charCodeAt(i)); return r; };
// a character that means nothing, in text or in code
const plain = (S, name, n = 1, inCode = false, lo = 0, hi = 0xd7ff) => { const s = S.str(name, n, lo, hi); for (let i = 0; i < n; i++) { const chars = (inCode ? "`\r" : RESERVED) + "\\"; for (let j = 0; j < chars.length; j++) S.assume(s.charCodeAt(i) !== chars.charCodeAt(j)); } return s; };
const attempt = (S, f) => { const { InputError } = S.load("0_errors.ts"), r = S.attempt(f); if (!r.ok) S.assert(r.error instanceof InputError, "parsing fails with something else than an input error"); return r.ok ? { v: r.value } : { e: r.error }; };
// what a text means, character by character; undefined if it is malformed. Links without a scheme mark nothing.
const WS = [32, 9, 13, 10, 0, 11];
const meaning = (t, n) => {
  const at = (i) => i < n ? t.charCodeAt(i) : -1;
  const [US, STAR, TILDE, BAR, TICK, OPEN, CLOSE, BANG, PAREN, BACK] = [95, 42, 126, 124, 96, 91, 93, 33, 40, 92];
  let out = "", stack = [], marks = [];
  const top = () => stack.length ? stack[stack.length - 1].type : "";
  const begin = (type, extra) => { stack.push({ type, offset: out.length, ...extra }); };
  // returns whether the entity is kept
  const end = (drop) => { const { type, offset, ...extra } = stack.pop(); if (!drop && out.length > offset) marks.push({ type, offset, length: out.length - offset, ...extra }); };
  let i = 0;
  while (i < n) {
    const c = at(i);
    if (c === BACK) {
      if (i + 1 < n && at(i + 1) > 0 && at(i + 1) <= 126) { out += t.charAt(i + 1); i += 2; } else { out += t.charAt(i); i++; }
      continue;
    }
    if (top() === "code" || top() === "pre") {
      if (c !== TICK) { out += t.charAt(i); i++; continue; }
    }
    if (c === US) {
      const two = at(i + 1) === US;
      if (two ? top() === "underline" : top() === "italic") end(); else begin(two ? "underline" : "italic");
      i += two ? 2 : 1;
    } else if (c === STAR || c === TILDE) {
      const type = c === STAR ? "bold" : "strikethrough";
      if (top() === type) end(); else begin(type);
      i++;
    } else if (c === BAR) {
      if (at(i + 1) !== BAR) return;
      if (top() === "spoiler") end(); else begin("spoiler");
      i += 2;
    } else if (c === TICK) {
      const three = at(i + 1) === TICK && at(i + 2) === TICK;
      if (top() === "code") { end(); i++; }
      else if (top() === "pre" && three) { end(); i += 3; }
      else if (!three) { begin("code"); i++; }
      else {
        i += 3;
        let j = i, language = "";
        while (j < n && !WS.includes(at(j)) && at(j) !== TICK) j++;
        if (j > i && j < n && at(j) !== TICK) { language = t.slice(i, j); i = j; }
        const a = at(i), b = at(i + 1);
        if (a === 10 || a === 13) i += (b === 10 || b === 13) && a !== b ? 2 : 1;
        begin("pre", { language });
      }
    } else if (c === OPEN) { begin("textLink"); i++; }
    else if (c === BANG) { if (at(i + 1) !== OPEN) return; begin("customEmoji"); i += 2; }
    else if (c === CLOSE) {
      if (top() !== "textLink" && top() !== "customEmoji") return;
      i++;
      if (at(i) === PAREN) {
        i++;
        while (i < n && at(i) !== 41) i += at(i) === BACK && i + 1 < n && at(i + 1) > 0 && at(i + 1) <= 126 ? 2 : 1;
        if (i >= n) return;
        i++;
      } else if (top() === "customEmoji") return;
      end(true);
    } else if (is(c, RESERVED)) return;
    else { out += t.charAt(i); i++; }
  }
  if (stack.length) return;
  return [out, sorted(marks)];
};
exports.cases = (tier) => {
  const cs = [];
  const deep = tier !== "quick";
  const parse = (S, text, secret) => { const { parseMarkdown } = S.load("client/0_markdown.ts"); return attempt(S, () => parseMarkdown(text, ...(secret ? [true] : []))); };
  const doc = (S) => {
    let n = 0;
    const d = { md: "", text: "", entities: [], raw(md, text = "") { d.md += md; d.text += text; return d; },
      plain(inCode, k = 1, lo, hi) { const s = plain(S, "t" + n++, k, inCode, lo, hi); return d.raw(s, s); },
      ascii(inCode) { return d.plain(inCode, 1, 0, 127); },
      escape() { const s = S.str("t" + n++, 1, 1, 126); return d.raw("\\" + s, s); },
      astral() { const s = S.str("t" + n + ".high", 1, 0xd800, 0xdbff) + S.str("t" + n++ + ".low", 1, 0xdc00, 0xdfff); return d.raw(s, s); },
      element(type, inside, [open, close, extra] = KINDS[type], drop = false) { d.md += open; const offset = d.text.length; inside(FLAT.has(type)); d.md += close; if (!drop) d.entities.push({ type, ...extra, offset, length: d.text.length - offset }); return d; } };
    return d;
  };
  const finish = (S, d, secret) => {
    const { v, e } = parse(S, d.md, secret);
    S.assert(!e, "well-formed input is rejected");
    if (!v) return;
    S.assertEq(v[0], d.text, "the text is not the input's text");
    S.assertEq(v[1], sorted(d.entities.filter((e) => e.length)), "the formatting does not mark exactly the delimited parts");
  };
  const clash = (a, b) => a === "italic" && b === "underline" || a === "underline" && b === "italic" || a === b && (a === "italic" || a === "underline");
  // ---- nesting
  const outer = NAMES.filter((n) => !FLAT.has(n));
  [outer.slice(0, 3), outer.slice(3, 6), outer.slice(6)].forEach((group, g) => cs.push({ name: "nested-" + (g + 1), bounds: `every kind of formatting in ${group.join(", ")}, which is first, last or alone in it, next to arbitrary characters and escapes`, run: async (S) => {
    const a = S.choose("outer", group), b = S.choose("inner", NAMES), pos = S.choose("position", [0, 1, 2, 3]);
    if (a === b || clash(a, b) && pos !== 2 || PRIORITY[a] === PRIORITY[b] && pos === 0) return;
    const d = doc(S);
    d.element(a, () => {
      if (pos === 1 || pos === 2) d.ascii();
      d.element(b, (flat) => { d.ascii(flat); d.escape(); });
      if (pos === 2 || pos === 3) d.ascii();
    });
    d.ascii();
    finish(S, d);
  } }));
  cs.push({ name: "deep", bounds: "three kinds of formatting in one another, text in the innermost only or around every one", run: async (S) => {
    const order = S.choose("order", [["bold", "spoiler", "strikethrough"], ["underline", "bold", "italic"], ["textLink", "bold", "code"], ["spoiler", "customEmoji", "underline"], ["strikethrough", "italic", "pre"], ["bold", "textMention", "spoiler"]]);
    const around = S.choose("around", [false, true]);
    const d = doc(S);
    const inner = (k) => (flat) => { if (k === 3) { d.ascii(flat); return; } if (around) d.ascii(); d.element(order[k], inner(k + 1)); if (around) d.ascii(); };
    inner(0)(false);
    finish(S, d);
  } });
  cs.push({ name: "neighbours", bounds: "every two kinds of formatting side by side, empty ones, surrogate pairs and arbitrary characters up to U+D7FF, secret or not", run: async (S) => {
    const a = S.choose("first", NAMES), b = S.choose("second", NAMES), shape = S.choose("shape", ["full", "first empty", "second empty"]);
    const secret = NAMES.indexOf(b) % 3 === 0 && a !== "dateTime" && b !== "dateTime";
    if (shape === "first empty" && (clash(a, b) || a === "code" && FLAT.has(b) || a === "italic" || a === "underline") || shape === "second empty" && (b === "code" || b === "italic" || b === "underline")) return;
    const d = doc(S);
    d.element(a, (flat) => { if (shape !== "first empty") d.ascii(flat); });
    if (shape === "full" || clash(a, b) || FLAT.has(a) && FLAT.has(b) || a === "textLink") d.astral();
    d.element(b, (flat) => { if (shape !== "second empty") d.plain(flat, 1, 128, 0xd7ff); });
    finish(S, d, secret);
  } });
  cs.push({ name: "characters", bounds: "every character in every kind of formatting, escaped if need be, surrogate pairs included", run: async (S) => {
    const a = S.choose("type", NAMES), what = S.choose("what", ["plain", "escape", "astral", "backslash"]);
    const d = doc(S);
    d.ascii();
    d.element(a, (flat) => { if (what === "plain") d.plain(flat); else if (what === "escape") d.escape().escape(); else if (what === "astral") d.astral(); else { const s = S.str("after", 1, 127, 0xd7ff); d.raw("\\" + s, "\\" + s); } });
    d.plain();
    finish(S, d);
  } });
  cs.push({ name: "fences", bounds: "fenced blocks with every language of one character or two ASCII characters, every line break after it, or none; every character in the block", run: async (S) => {
    const n = S.choose("letters", [0, 1, 2]), brk = S.choose("break", ["\n", "\r", "\r\n", "\n\r", "\n\n", " ", "\t", ""]);
    const language = S.str("language", n, 0, n === 1 ? 0xd7ff : 127); for (let i = 0; i < n; i++) { const c = language.charCodeAt(i); S.assume((c !== 96) & (c !== 92)); for (const w of WS) S.assume(c !== w); }
    const x = plain(S, "x", 1, true, 0, 127) + plain(S, "y", 1, true, 128);
    S.assume((x.charCodeAt(0) !== 10) & (x.charCodeAt(0) !== 13));
    const dark = (c) => { for (const w of WS) S.assume(c !== w); };
    const kept = brk === "\n\n" ? "\n" : brk === " " || brk === "\t" ? brk : "";
    const named = n > 0 && brk !== "";
    // without white space after it the language belongs to the block
    if (!brk) dark(x.charCodeAt(0));
    const d = doc(S);
    d.ascii();
    d.element("pre", () => d.raw((named ? kept : language + kept) + x, (named ? kept : language + kept) + x), ["```" + (named ? language : "") + (kept === brk ? "" : brk.slice(0, brk.length - kept.length)), "```", { language: named ? language : "" }]);
    d.ascii();
    finish(S, d);
  } });
  // ---- links
  const digits = (S, name, n) => { const s = S.str(name, n, 48, 57); let v = 0; for (let i = 0; i < n; i++) v = v * 10 + (s.charCodeAt(i) - 48); return [s, v]; };
  cs.push({ name: "links", bounds: "links to every address of letters behind a scheme and host, with escapes in it, or whose text is the address; unsupported schemes mark nothing", run: async (S) => {
    const form = S.choose("form", ["given", "escaped", "parenthesis", "text", "unsupported", "no address"]);
    const scheme = S.choose("scheme", form === "unsupported" ? ["ftp", "javascript"] : ["http", "https", "tg", "ton"]);
    const p = S.str("path", 3, 97, 122), url = scheme + "://e.org/" + p;
    const d = doc(S);
    d.ascii();
    if (form === "text") { const p2 = p, u = scheme + "://e/" + p2; d.element("textLink", () => d.raw(u, u), ["[", "]", { url: u }]); }
    else if (form === "no address") d.element("textLink", () => d.plain(false, 2, 97, 122), ["[", "]"], true);
    else {
      const [md, want] = form === "given" || form === "unsupported" ? [url, url] : form === "escaped" ? [scheme + "://e\\.org/" + p.charAt(0) + "\\" + p.slice(1), url] : [url + "\\)a(", url + ")a("];
      d.element("textLink", () => d.ascii(), ["[", `](${md})`, { url: want }], form === "unsupported");
    }
    d.ascii();
    finish(S, d, S.choose("secret", [false, true]));
  } });
  cs.push({ name: "mentions", bounds: "every user identifier of up to seven digits", run: async (S) => {
    const [id, v] = digits(S, "id", S.choose("digits", deep ? [1, 2, 3, 4, 5, 6, 7] : [1, 4, 7]));
    const secret = S.choose("secret", [false, true]);
    const ok = id.charCodeAt(0) !== 48;
    const d = doc(S);
    if (ok) d.element("textMention", () => d.ascii(), ["[", `](tg://user?id=${id})`, { userId: v }]); else d.element("textLink", () => d.ascii(), ["[", `](tg://user?id=${id})`, { url: "tg://user?id=" + id }]);
    finish(S, d, secret);
  } });
  cs.push({ name: "custom-emojis", bounds: `every custom emoji identifier and point in time of up to ${deep ? 5 : 3} digits`, run: async (S) => {
    const what = S.choose("what", ["emoji", "time", "time with format", "other"]), n = S.choose("digits", deep ? [1, 2, 3, 4, 5] : [1, 3]);
    const [id, v] = digits(S, "id", n), secret = S.choose("secret", [false, true]);
    const f = S.str("format", 2, 97, 122);
    const ok = what !== "other" && id.charCodeAt(0) !== 48;
    const d = doc(S);
    d.ascii();
    const url = what === "emoji" ? `tg://emoji?id=${id}` : what === "other" ? `tg://else?id=${id}` : `tg://time?unix=${id}${what === "time" ? "" : "&format=" + f}`;
    const type = what === "emoji" ? "customEmoji" : "dateTime";
    d.element(type, () => d.ascii(), ["![", `](${url})`, what === "emoji" ? { customEmojiId: id } : { dateTime: v, format: what === "time" ? undefined : f }], !ok || secret && type === "dateTime");
    finish(S, d, secret);
  } });
  // ---- text without markup, and all of it escaped
  cs.push({ name: "no-markup", bounds: `every text of up to ${deep ? 4 : 3} characters without markup, surrogate pairs included`, run: async (S) => {
    const n = S.choose("length", deep ? [0, 1, 2, 3, 4] : [0, 1, 2, 3]);
    const s = plain(S, "s", n, false, 0, 65535);
    // unpaired surrogates have no encoding
    for (let i = 0; i < n; i++) { const c = s.charCodeAt(i), high = (x) => (x >= 0xd800) & (x <= 0xdbff), low = (x) => (x >= 0xdc00) & (x <= 0xdfff); if (low(c)) S.assume(i > 0 ? high(s.charCodeAt(i - 1)) : false); if (high(c)) S.assume(i + 1 < n ? low(s.charCodeAt(i + 1)) : false); }
    const d = doc(S); d.raw(s, s);
    finish(S, d, S.choose("secret", [false, true]));
  } });
  cs.push({ name: "escaped", bounds: `every text of up to ${deep ? 8 : 5} characters U+0001 to U+007E, all escaped, in any kind of formatting`, run: async (S) => {
    const n = S.choose("length", deep ? [1, 2, 3, 5, 8] : [1, 2, 5]), a = S.choose("type", ["", ...NAMES]);
    const d = doc(S);
    const inside = () => { for (let i = 0; i < n; i++) d.escape(); };
    if (a) d.element(a, inside); else inside();
    finish(S, d);
  } });
  // ---- anything
  for (const prefix of ["", "*", "_", "__", "_a", "__a", "~x", "||x", "`", "`x`", "```", "```a\n", "[", "[*a*", "[x](", "![", "**", "x|", "a\\", "*[_"]) { const free = (deep ? 4 : 3) + (prefix === "" ? 1 : 0); cs.push({ name: "anything-" + prefix, bounds: `every text that consists of "${prefix}" and ${free} further ASCII characters without a colon`, run: async (S) => {
    const s = S.str("s", free, 0, 127); for (let i = 0; i < free; i++) S.assume(s.charCodeAt(i) !== 58);
    const t = prefix + s;
    const r = parse(S, t);
    const want = meaning(t, prefix.length + free);
    S.assertEq(!r.e, !!want, "a malformed text is accepted, or a well-formed one is rejected");
    if (r.e) return S.cover("rejected");
    S.cover("parsed");
    S.assertEq(r.v[0], want[0], "the text is not the input's text");
    S.assertEq(r.v[1], want[1], "the formatting does not mark exactly the delimited parts");
  } }); }
  return cs;
};
