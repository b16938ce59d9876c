"use strict";
// C31 Proxy and server addresses are encoded exactly
const { rig, cat, globals, DENO } = require("./lib/net.js");
exports.title = "Proxy and server addresses are encoded exactly";
exports.assumptions = ["whether a text is an IPv4 or IPv6 address is decided by the standard library, which is not part of this repository; every other text is passed on as a domain name", "the operating system delivers the proxy's bytes in order"];
const WIDTHS = [[4], [1], [1, 2, 3, 4], [2, 3, 4, 1], [3, 4, 1, 2], [4, 1, 2, 3]];
const RANGES = [[[0, 9], [0, 9], [0, 9], [0, 9]], [[100, 255], [10, 99], [0, 9], [100, 255]], [[0, 9], [100, 255], [100, 255], [10, 99]]];
// an address in text, with symbolic digits, and its bytes
const v4 = (S, label, ranges) => { const n = [0, 1, 2, 3].map((i) => S.int(label + i, ...(ranges ? ranges[i] : [0, 255]))); return { text: `${n[0]}.${n[1]}.${n[2]}.${n[3]}`, bytes: n }; };
const v6 = (S, left, right, widths, upper, tail) => {
  let n = 0;
  const group = () => {
    const d = [0, 0, 0, 0], w = widths[n % widths.length], b = S.bytes("digits", 2); let s = "";
    for (let k = 4 - w; k < 4; k++) { d[k] = k % 2 ? b[k >> 1] & 15 : b[k >> 1] >> 4; s += String.fromCharCode(d[k] < 10 ? 48 + d[k] : (upper ? 55 : 87) + d[k]); }
    n++;
    return { s, bytes: [d[0] * 16 + d[1], d[2] * 16 + d[3]] };
  };
  const l = [], r = [], bytes = [], size = tail ? 6 : 8, full = left === size, push = (g) => bytes.push(...g.bytes);
  for (let i = 0; i < left; i++) l.push(group());
  for (let i = 0; i < right; i++) r.push(group());
  l.forEach(push); if (!full) for (let i = left + right; i < size; i++) bytes.push(0, 0); r.forEach(push); if (tail) bytes.push(...tail.bytes);
  const before = l.map((g) => g.s), after = r.map((g) => g.s).concat(tail ? [tail.text] : []);
  return { text: full ? before.concat(after).join(":") : before.join(":") + "::" + after.join(":"), bytes };
};
const PLACES = []; for (const tail of [false, true]) { const size = tail ? 6 : 8; for (let l = 0; l <= size; l++) for (let r = 0; r < (l === size ? 1 : size - l); r++) PLACES.push([l, r, tail]); }
// the requests a proxy expects
const hello = new Uint8Array([5, 2, 0, 2]);
const request = (type, address, port) => cat([[5, 1, 0, type], address, [(port - port % 256) / 256, port % 256]]);
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  cs.push({ name: "ipv4", bounds: "every IPv4 address", run: async (S) => {
    const { ipv4ToBytes } = S.load("utilities/0_ip.ts"), a = v4(S, "n");
    S.assertEq(ipv4ToBytes(a.text), a.bytes, "an IPv4 address has wrong bytes");
  } });
  for (const upper of [false, true]) cs.push({ name: "ipv6, " + (upper ? "upper" : "lower") + " case", weight: 3, bounds: `every IPv6 address with '::' in every place or none, groups of 1 to 4 digits in ${deep ? "six" : "three"} patterns, with and without an IPv4 address at its end (three patterns)`, covers: ["embedded", "full", "shortened"], run: async (S) => {
    const { ipv6ToBytes } = S.load("utilities/0_ip.ts"), [left, right, tail] = S.choose("place", PLACES), widths = S.choose("widths", deep ? WIDTHS : WIDTHS.slice(0, 3));
    const a = v6(S, left, right, widths, upper, tail ? v4(S, "tail", deep || left === 6 || left === right ? S.choose("ranges", RANGES) : RANGES[left % 3]) : null);
    S.cover(tail ? "embedded" : left === 8 ? "full" : "shortened");
    S.assertEq(ipv6ToBytes(a.text), a.bytes, "an IPv6 address has wrong bytes");
  } });
  for (const kind of ["socks5", "socks5.node"]) {
    // a connection whose handshake goes well up to a step
    const start = async (S, o) => { const t = rig(S, kind, o); t.p = S.outcome(Promise.resolve().then(() => t.c.open())); await S.settle(); S.assertEq(t.to, { hostname: "proxy", port: 1080 }, "the proxy is not the one that is connected to"); return t; };
    const take = (t) => { const r = cat(t.wire.sent); t.wire.sent.length = 0; return r; };
    const give = async (S, t, bytes, division) => {
      if (division === "whole") t.wire.arrive(bytes);
      else if (division === "bytes") for (let i = 0; i < bytes.length; i++) { t.wire.arrive(bytes.slice(i, i + 1)); if (i % 3 === 0) await S.settle(); }
      else { t.wire.arrive(bytes.slice(0, 1)); await S.settle(); t.wire.arrive(bytes.slice(1)); }
      await S.settle();
    };
    const refused = async (S, t) => {
      const r = await S.peek(t.p);
      S.assert(r !== "pending" && !r.value.ok, "a refusing or malformed answer of a proxy is taken for a good one"); if (r === "pending" || r.value.ok) return;
      S.assert(!t.c.isConnected && t.states.length === 0, "a connection whose handshake failed counts as open");
      S.assert(t.wire.closed > 0 || t.wire.destroyed, "a connection whose handshake failed is left open");
      S.assert((await t.open()).ok && t.c.isConnected, "a connection cannot be opened after a failed handshake");
      S.assert(S.unhandled().length === 0, "an error is raised that nobody can catch");
    };
    cs.push({ name: "addresses, " + kind, weight: 3, globals, bounds: "every IPv4 address with three patterns of digits; IPv6 addresses with every digits in eight forms; domain names of 2, 18, 16 (with letters beyond ASCII) and 255 bytes; every port; and, for one of each, every address and port in confirmations of each type, in three divisions, with and without bytes that follow at once", covers: ["ipv4", "ipv6", "domain"], run: async (S) => {
      const confirmation = S.choose("confirmation", [false, true]), port = S.int("port", 0, 65535), type = S.choose("type", ["ipv4", "ipv6", "domain"]), pick = (l, xs) => confirmation ? xs[1] : S.choose(l, xs); let host, expected;
      if (type === "ipv4") { const a = v4(S, "n", pick("ranges", RANGES)); host = a.text; expected = request(1, a.bytes, port); }
      if (type === "ipv6") { const [l, r, tail] = pick("place", [[8, 0, false], [0, 0, false], [4, 1, false], [1, 6, false], [0, 7, false], [7, 0, false], [6, 0, true], [0, 1, true]]), a = v6(S, l, r, WIDTHS[l % 3], l === 4, tail ? v4(S, "tail", RANGES[1]) : null); host = a.text; expected = request(4, a.bytes, port); }
      if (type === "domain") {
        const form = pick("form", ["short", "plain", "long", "wide"]), abc = (n) => S.str("letters", n, 0x61, 0x7a), { encodeText } = S.load("1_utilities.ts");
        host = form === "short" ? abc(2) : form === "plain" ? abc(3) + "-1." + abc(8) + ".org" : form === "long" ? "x".repeat(200) + abc(51) + ".org" : S.str("wide", 6, 0xa1, 0x2ff) + ".net";
        const bytes = encodeText(host); expected = request(3, cat([[bytes.length], bytes]), port);
      }
      S.cover(type);
      const t = await start(S, { host, port });
      S.assertEq(take(t), hello, "the greeting of a proxy is wrong");
      await give(S, t, new Uint8Array([5, 0]), "whole");
      S.assertEq(take(t), expected, "the request to a proxy does not have the prescribed form");
      S.assert(!t.c.isConnected, "a connection counts as open before the proxy has confirmed it");
      const at = confirmation ? S.choose("answer", [1, 3, 4]) : 1, n = at === 1 ? 4 : at === 4 ? 16 : S.choose("name", [1, 2, 255]), division = confirmation ? S.choose("division", n === 255 ? ["whole", "first"] : ["whole", "bytes", "first"]) : "whole";
      const data = S.bytes("data", 4), early = confirmation ? S.choose("early", [0, 4]) : 2, b = S.bytes("bound", n + 2);
      await give(S, t, cat([[5, 0, 0, at], at === 3 ? [n] : [], b, data.slice(0, early)]), division);
      const r = await S.peek(t.p);
      S.assert(r !== "pending" && r.value.ok && t.c.isConnected, "a proxy's confirmation is not taken for one"); if (r === "pending") return;
      S.assertEq(t.states, [true], "a wrong state is announced");
      if (early < 4) t.wire.arrive(data.slice(early));
      const p = new Uint8Array(4), q = await S.peek(S.outcome(Promise.resolve().then(() => t.c.read(p))));
      S.assert(q !== "pending" && q.value.ok, "a read through a proxy does not end"); S.assertEq(p, data, "what is read through a proxy is not what was sent");
      S.assert(take(t).length === 0, "more is sent to a proxy than its requests");
    } });
    cs.push({ name: "credentials, " + kind, weight: 2, globals, bounds: "user names and passwords of 0, 1 and 6 characters of every kind within the basic plane (surrogates excluded) and of 255 and 256 letters; every answer to the greeting, to the credentials and to the request", covers: ["accepted", "asked", "without"], run: async (S) => {
      const text = (l) => { const n = S.choose(l + ".n", [0, 1, 6, 255, 256]); return n < 7 ? S.str(l, n, 1, 0xd7ff) : "p".repeat(n); };
      const wide = S.choose("wide", [true, false]), username = wide ? text("username") : S.str("u", 2, 1, 0x7f), password = wide ? S.choose("pw", ["", "secret"]) : text("password"), both = username.length > 0 && password.length > 0;
      const t = await start(S, { credentials: { username, password } });
      S.assertEq(take(t), hello, "the greeting of a proxy is wrong");
      await give(S, t, new Uint8Array([5, 2]), S.choose("division", ["whole", "first"]));
      if (!both) { S.cover("without"); S.assert(take(t).length === 0, "credentials are sent that there are not"); await refused(S, t); return; }
      const { encodeText } = S.load("1_utilities.ts"), u = encodeText(username).slice(0, 255), p = encodeText(password).slice(0, 255);
      S.assertEq(take(t), cat([[1, u.length], u, [p.length], p]), "credentials are not sent in the prescribed form"); S.cover("asked");
      await give(S, t, new Uint8Array([1, 0]), S.choose("division", ["whole", "first"]));
      S.assertEq(take(t), request(1, [1, 2, 3, 4], 443), "the request to a proxy does not have the prescribed form");
      await give(S, t, new Uint8Array([5, 0, 0, 1, 1, 2, 3, 4, 1, 1]), "whole");
      const r = await S.peek(t.p); S.assert(r !== "pending" && r.value.ok && t.c.isConnected, "a proxy's confirmation is not taken for one"); S.cover("accepted");
    } });
    cs.push({ name: "answers, " + kind, weight: 3, globals, bounds: "every two bytes in answer to the greeting and to the credentials, and every three bytes and address type in answer to the request, with and without credentials", covers: ["none", "password", "refused", "opened"], run: async (S) => {
      const credentials = S.choose("credentials", [undefined, { username: "a", password: "b" }]), t = await start(S, { credentials });
      take(t);
      const m = S.bytes("method", 2); await give(S, t, m, "whole");
      const none = m[0] === 5 && m[1] === 0, password = m[0] === 5 && m[1] === 2 && credentials !== undefined;
      if (!none && !password) { S.cover("refused"); S.assert(take(t).length === 0, "something is sent to a proxy that is not understood"); await refused(S, t); return; }
      if (password) {
        S.cover("password"); S.assertEq(take(t), new Uint8Array([1, 1, 97, 1, 98]), "credentials are not sent in the prescribed form");
        const s = S.bytes("status", 2); await give(S, t, s, "whole");
        if (s[0] !== 1 || s[1] !== 0) { S.cover("refused"); S.assert(take(t).length === 0, "something is sent to a proxy that refused the credentials"); await refused(S, t); return; }
      } else S.cover("none");
      S.assertEq(take(t), request(1, [1, 2, 3, 4], 443), "the request to a proxy does not have the prescribed form");
      const r = S.bytes("reply", 4);
      await give(S, t, r, "whole");
      if (r[0] !== 5 || r[1] !== 0) { S.cover("refused"); await refused(S, t); return; }
      const n = r[3] === 1 ? 6 : r[3] === 4 ? 18 : r[3] === 3 ? 0 : -1;
      if (n < 0) { await give(S, t, new Uint8Array(20), "whole"); S.cover("refused"); await refused(S, t); return; }
      S.assert((await S.peek(t.p)) === "pending" && !t.c.isConnected, "a connection counts as open before the proxy has confirmed it");
      if (n > 0) await give(S, t, new Uint8Array(n), "whole"); else { const d = S.int("n", 1, 255), x = S.conc(d); await give(S, t, new Uint8Array(x + 2), "whole").catch(() => {}); }
      if (n === 0) return;
      const v = await S.peek(t.p); S.assert(v !== "pending" && v.value.ok && t.c.isConnected, "a proxy's confirmation is not taken for one"); S.cover("opened");
    } });
    cs.push({ name: "cut, " + kind, weight: 2, globals, bounds: "a proxy that ends or loses the connection after every number of bytes of its three answers, with any content in the last of them", covers: ["cut"], run: async (S) => {
      const t = await start(S, { credentials: { username: "a", password: "b" } }), answers = [[5, 2], [1, 0], cat([[5, 0, 0], S.choose("address", [[1, 1, 2, 3, 4], [4, ...new Array(16).fill(7)], [3, 2, 97, 98]]), [1, 1]])];
      const k = S.choose("answer", [0, 1, 2]), n = S.choose("bytes", Array.from({ length: answers[k].length }, (_, i) => i));
      for (let i = 0; i < k; i++) await give(S, t, new Uint8Array(answers[i]), "whole");
      if (n > 0) await give(S, t, new Uint8Array(answers[k]).slice(0, n), "whole");
      S.assert((await S.peek(t.p)) === "pending" && !t.c.isConnected, "a connection counts as open before the proxy has confirmed it");
      if (S.choose("how", ["end", "fail"]) === "end") t.wire.end(); else t.wire.fail();
      await S.settle();
      const r = await S.peek(t.p); S.cover("cut");
      S.assert(r !== "pending" && !r.value.ok && !t.c.isConnected && t.states.length === 0, "a connection that ended during the handshake counts as open");
      S.assert((await t.open()).ok && t.c.isConnected, "a connection cannot be opened after a failed handshake");
      S.assert(S.unhandled().length === 0, "an error is raised that nobody can catch");
    } });
  }
  return cs;
};
