"use strict";
// An encoder of TL objects written from the protocol's description, driven by the tables of the repository's schemas,
// and a generator of symbolic objects of a type.
exports.kit = function (S) {
  const K = {};
  K.i32 = (v) => { const out = []; for (let i = 0; i < 4; i++) out.push((v >> (8 * i)) & 255); return out; };
  K.big = (v, n) => { const out = []; for (let i = 0; i < n; i++) out.push(Number(BigInt.asUintN(8, v >> BigInt(8 * i)))); return out; };
  K.raw = (b) => { const n = b.length; const h = n < 254 ? [n] : [254, n & 255, (n >> 8) & 255, n >> 16]; const out = [...h]; for (let i = 0; i < n; i++) out.push(b[i]); while (out.length % 4) out.push(0); return out; };
  K.dbl = (v) => { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, v, true); const out = []; for (let i = 0; i < 8; i++) out.push(d.getUint8(i)); return out; };
  K.text = (s) => { const b = []; for (let i = 0; i < s.length; i++) b.push(s.charCodeAt(i)); return b; };
  K.opt = (t) => { const m = /^(\w+)\.(\d+)\?(.+)$/.exec(t); return m ? { flags: m[1], bit: Number(m[2]), inner: m[3] } : null; };
  K.vec = (t) => { const m = /^([Vv])ector<(.+)>$/.exec(t); return m ? { bare: m[1] === "v", item: m[2] } : null; };
  K.VECTOR = 0x1CB5C415;
  K.enc = (type, v, schema) => {
    switch (type) {
      case "int": return K.i32(v);
      case "long": return K.big(v, 8);
      case "int128": return K.big(v, 16);
      case "int256": return K.big(v, 32);
      case "double": return K.dbl(v);
      case "string": return K.raw(K.text(v));
      case "bytes": return K.raw(v);
      case "true": return [];
      case "Bool": return v ? K.i32(0x997275b5 | 0) : K.i32(0xbc799737 | 0);
    }
    const q = K.vec(type);
    if (q) { const out = q.bare ? [] : K.i32(K.VECTOR); out.push(...K.i32(v.length)); for (const x of v) out.push(...K.enc(q.item, x, schema)); return out; }
    return K.encObject(v, schema, schema.definitions[type] !== undefined && type !== "X");
  };
  K.encObject = (v, schema, bare = false) => {
    const [id, fields] = schema.definitions[v._];
    const out = bare ? [] : K.i32(id | 0);
    for (const [name, type] of fields) {
      if (type === "#") { let w = 0; for (const [n, t] of fields) { const o = K.opt(t); if (o && o.flags === name && v[n] !== undefined) w |= 1 << o.bit; } out.push(...K.i32(w)); continue; }
      const o = K.opt(type);
      if (o) { if (v[name] !== undefined) out.push(...K.enc(o.inner, v[name], schema)); } else out.push(...K.enc(type, v[name], schema));
    }
    return out;
  };
  // The smallest constructor of a type: no optional fields given, as few nested objects as possible.
  const minimal = new WeakMap();
  K.minimal = (schema) => {
    let m = minimal.get(schema);
    if (m) return m;
    minimal.set(schema, m = {});
    const known = new Set(["int", "long", "int128", "int256", "double", "string", "bytes", "true", "Bool", "#"]);
    for (let changed = true; changed;) {
      changed = false;
      for (const name in schema.definitions) {
        const [, fields, type] = schema.definitions[name];
        if (!(name in schema.identifierToName_)) continue;
        if (known.has(type) && m[type] && known.has(name)) continue;
        if (fields.every(([, t]) => K.opt(t) || K.vec(t) || known.has(t))) { if (!m[type] || !known.has(type)) { m[type] = name; known.add(type); } known.add(name); changed = true; }
      }
    }
    return m;
  };
  let counter = 0;
  K.value = (type, schema, size = 1, depth = 0) => {
    const n = "v" + counter++;
    switch (type) {
      case "int": return S.int(n, -(2 ** 31), 2 ** 31 - 1);
      case "long": return S.big(n, -(1n << 63n), (1n << 63n) - 1n);
      case "int128": return S.big(n, -(1n << 127n), (1n << 127n) - 1n);
      case "int256": return S.big(n, -(1n << 255n), (1n << 255n) - 1n);
      case "double": return S.f64(n);
      case "string": return S.str(n, size, 1, 127);
      case "bytes": return S.bytes(n, size);
      case "true": return true;
      case "Bool": return S.bool(n);
    }
    const q = K.vec(type);
    if (q) { const out = []; for (let i = 0; i < size; i++) out.push(K.value(q.item, schema, 1, depth + 1)); return out; }
    if (schema.definitions[type] && schema.identifierToName_[type]) return K.object(type, schema, {}, depth + 1);
    if (type === "!X" || type === "X") return K.object(schema.anyObject, schema, {}, depth + 1);
    return K.object(K.minimal(schema)[type], schema, {}, depth + 1);
  };
  // with: names of optional fields to give; size: names -> content size; as: names -> constructor to use
  K.object = (name, schema, { give = () => false, size = {}, as = {} } = {}, depth = 0) => {
    const v = { _: name };
    for (const [f, t] of schema.definitions[name][1]) {
      if (t === "#") continue;
      const o = K.opt(t);
      if (o && !give(f, o)) continue;
      const inner = o ? o.inner : t;
      if (as[f]) { const q = K.vec(inner); const x = K.object(as[f], schema, {}, depth + 1); v[f] = q ? [x] : x; continue; }
      v[f] = K.value(inner, schema, size[f] ?? (depth < 2 ? 1 : 0), depth);
    }
    return v;
  };
  K.schema = (schema, anyObject) => {
    const names = {};
    for (const id in schema.identifierToName) names[schema.identifierToName[id]] = true;
    return { definitions: schema.definitions, identifierToName: schema.identifierToName, identifierToName_: names, anyObject, real: schema };
  };
  K.crc = (text) => { let c = ~0; for (let i = 0; i < text.length; i++) { c ^= text.charCodeAt(i); for (let k = 0; k < 8; k++) c = (c >>> 1) ^ (0xEDB88320 & -(c & 1)); } return ~c >>> 0; };
  // The identifier a declaration prescribes: the checksum of its text without conditional `true` fields.
  K.prescribed = (name, def, versioned) => {
    const fields = def[1].filter(([, t]) => !t.endsWith("?true"));
    const any = fields.some(([, t]) => t === "!X") ? ["X:Type"] : [];
    return K.crc([versioned ? name.replace(/\d+$/, "") : name, ...any, ...fields.map(([a, b]) => `${a}:${b.replace(/(^|\?)bytes$/, "$1string")}`), "=", def[2]].join(" ").replace(/[<>]/g, " ").replace(/ +/g, " ").trim());
  };
  return K;
};
