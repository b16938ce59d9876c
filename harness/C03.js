"use strict";
// C03 TL objects of every schema type survive serialization and deserialization
const { kit } = require("./lib/tl.js");
exports.title = "TL objects of every schema type survive serialization and deserialization";
exports.assumptions = ["the field lists of the schemas are taken from the repository; their identifiers are checked against the checksums the declarations prescribe", "text is well-formed UTF-16"];
const SCHEMAS = [["telegram", "tl/1_telegram_api.ts", "inputPeerSelf", 16], ["mtproto", "tl/1_mtproto_api.ts", "pong", 1], ["secret", "tl/1_secret_chats_api.ts", "peerNotifyEventsEmpty", 1]];
// Declarations whose identifier is not the checksum of their text (they were assigned by hand) in the published schemas.
const ASSIGNED = ["ipPortSecret", "accessPointRule", "help.configSimple", "inputPeerPhotoFileLocationLegacy", "inputStickerSetThumbLegacy", "invokeWithBusinessConnectionPrefix", "invokeWithGooglePlayIntegrityPrefix", "invokeWithApnsSecretPrefix", "invokeWithReCaptchaPrefix", "decryptedMessageMediaDocument"];
// What varies in one object: each variant differs from the base object in one respect.
function variants(K, name, schema, tier) {
  const fields = schema.definitions[name][1], out = [{ name: "none given" }];
  const opts = fields.filter(([, t]) => K.opt(t));
  const bits = new Set(opts.map(([, t]) => { const o = K.opt(t); return o.flags + "." + o.bit; }));
  if (bits.size) out.push({ name: "all given", give: () => true });
  if (bits.size > 1) for (const b of bits) { out.push({ name: "only " + b, give: (f, o) => o.flags + "." + o.bit === b }); if (tier !== "quick") out.push({ name: "all but " + b, give: (f, o) => o.flags + "." + o.bit !== b }); }
  if (tier !== "quick") { const l = [...bits]; for (let i = 0; i < l.length; i++) for (let j = 0; j < i; j++) out.push({ name: l[i] + " and " + l[j], give: (f, o) => { const x = o.flags + "." + o.bit; return x === l[i] || x === l[j]; } }); }
  for (const [f, t] of fields) {
    const inner = K.opt(t) ? K.opt(t).inner : t, give = (g) => g === f || K.opt(t) && fields.some(([h, u]) => h === g && K.opt(u) && K.opt(u).flags === K.opt(t).flags && K.opt(u).bit === K.opt(t).bit);
    const sizes = inner === "string" || inner === "bytes" ? (tier === "quick" ? [0] : [0, 2, 3, 4, 253, 254]) : K.vec(inner) ? (tier === "quick" ? [2] : [0, 2, 3]) : [];
    for (const n of sizes) out.push({ name: `${f} of ${n}`, give, size: { [f]: n } });
    if (tier !== "quick") { const item = K.vec(inner) ? K.vec(inner).item : inner; for (const c in schema.definitions) if (schema.definitions[c][2] === item && schema.identifierToName_[c] && item !== name) out.push({ name: `${f} as ${c}`, give, as: { [f]: c } }); }
  }
  return out;
}
exports.cases = (tier) => {
  const cs = [];
  for (const [label, file, any, parts] of SCHEMAS) for (let part = 0; part < parts; part++) cs.push({
    name: parts > 1 ? `${label}-${part}` : label,
    bounds: `every constructor and function of the ${label} schema${parts > 1 ? ` whose index is ${part} modulo ${parts}` : ""}; ${tier === "quick" ? "no, every single and all" : "no, every single, every pair, all but any one and all"} flag bits given; nested objects of their smallest${tier === "quick" ? "" : " and, one field at a time, of every"} constructor; vectors of 0..2 items; texts and byte strings of ${tier === "quick" ? "0 and 1" : "0..4, 253 and 254"} units; every value of every number, text and byte string`,
    weight: 3, validate: 1, budgetMs: tier === "quick" ? undefined : 800000, run: async (S) => {
      const K = kit(S);
      const { TLWriter } = S.load("tl/1_tl_writer.ts"), { TLReader } = S.load("tl/1_tl_reader.ts");
      const schema = K.schema(S.load(file).schema, any);
      const names = Object.keys(schema.definitions).filter((x, i) => i % parts === part && x !== "true"); // `true` is written as a value only
      const name = S.choose("constructor", names);
      const def = schema.definitions[name], isType = schema.identifierToName_[name] === true;
      if (!ASSIGNED.includes(name)) S.assert(K.prescribed(name, def, label === "secret") === def[0], `${name} does not have the identifier its declaration prescribes`);
      for (const v of [S.choose("variant", variants(K, name, schema, tier))]) {
        const o = K.object(name, schema, v);
        const w = new TLWriter().writeObject(o, schema.real);
        const want = K.encObject(o, schema);
        S.assertEq(w.length, want.length, `${name}, ${v.name}: the length is not the prescribed one`);
        const bytes = w.buffer;
        S.assertEq([...bytes], want, `${name}, ${v.name}: the bytes are not the prescribed ones`);
        if (def[1].some(([, t]) => t === "!X")) { S.cover("generic"); return; }
        for (const how of isType ? ["X", def[2], name] : [name]) {
          if (how === "True" || how === "Bool" || how === "Vector t") continue;
          const r = new TLReader(bytes);
          const back = r.readType(how, schema.real);
          S.assertEq(back, isType && how !== name && (name === "boolTrue" || name === "boolFalse") ? name === "boolTrue" : o, `${name}, ${v.name}: reading it back as ${how} gives another object`);
          for (const f of Object.keys(back)) S.assert(f in o, `${name}, ${v.name}: a field that was not given appears`);
          S.assert(r.buffer.length === 0, `${name}, ${v.name}: bytes are left over`);
        }
        S.cover("object");
      }
    },
  });
  return cs;
};
