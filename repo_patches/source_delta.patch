From c557881690679810fb95071b5e9da268da45a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 01/41] fix: keep a leading U+FEFF when decoding text

TextDecoder drops a leading byte order mark by default, so a string starting with U+FEFF lost that character when read from TL, which also shifts entity offsets.
---
 utilities/0_text.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/0_text.ts b/utilities/0_text.ts
index 5d6c2ca..d00305e 100644
--- a/utilities/0_text.ts
+++ b/utilities/0_text.ts
@@ -19,7 +19,7 @@
  */
 
 const encoder = new TextEncoder();
-const decoder = new TextDecoder();
+const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
 
 export function encodeText(decoded: string) {
   return encoder.encode(decoded);
-- 
2.43.0


From ecdfa52929bddcd5acff914691fdc585cc4baa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 02/41] fix: derive a group's default color from its whole
 identifier

---
 utilities/0_color.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utilities/0_color.ts b/utilities/0_color.ts
index e4a4ca2..4c99422 100644
--- a/utilities/0_color.ts
+++ b/utilities/0_color.ts
@@ -18,14 +18,15 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+import { ZERO_CHANNEL_ID } from "./0_misc.ts";
+
 export type ColorName = "red" | "orange" | "violet" | "green" | "cyan" | "blue" | "pink" | "combination 1" | "combination 2" | "combination 3" | "combination 4" | "combination 5" | "combination 6" | "combination 7" | "combination 8" | "combination 9" | "combination 10" | "combination 11" | "combination 12" | "combination 13" | "combination 14";
 
 export function getColorFromPeerId(id: number): number {
-  id = Number(String(id).replaceAll("-100", "-"));
-  if (id < 0) {
-    id = -id;
+  if (id < ZERO_CHANNEL_ID) {
+    id = ZERO_CHANNEL_ID - id;
   }
-  return Math.floor(id % 7);
+  return Math.abs(id) % 7;
 }
 
 export function getColorName(id: number): ColorName {
-- 
2.43.0


From 0d6be8f7236f8603440f52fdec762ba14b4cf39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 03/41] fix: set the time difference with its sign when the
 server reports wrong message identifiers

---
 session/2_session_encrypted.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index bb479c0..60b51ed 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -557,10 +557,9 @@ export class SessionEncrypted extends Session implements Session {
         low = true;
         /* falls through */
       case 17: // message ID too high
-        this.state.timeDifference = Math.abs(toUnixTimestamp(new Date()) - Number(msgId >> 32n));
+        this.state.timeDifference = Number(msgId >> 32n) - toUnixTimestamp(new Date());
         if (!low) {
-          this.state.timeDifference = -this.state.timeDifference;
-          logger.debug("resetting time difference to", -this.state.timeDifference, "because the ID of the message", badMsgNotification.bad_msg_id, "was too high");
+          logger.debug("resetting time difference to", this.state.timeDifference, "because the ID of the message", badMsgNotification.bad_msg_id, "was too high");
           await this.#invalidateSession("message ID too high");
           return;
         } else {
-- 
2.43.0


From b3076621bd37ba3b658040bc938c4a68f2338173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 04/41] fix: drop messages with a client's identifier or with
 impossible length or padding

---
 session/2_session_encrypted.ts | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 60b51ed..61c24d2 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -314,6 +314,20 @@ export class SessionEncrypted extends Session implements Session {
       return null;
     }
 
+    const header = new TLReader(plainReader.buffer);
+    const messageId = header.readInt64();
+    if ((messageId & 1n) === 0n) {
+      this.#L.debug("received message with invalid ID", messageId);
+      return null;
+    }
+    const _seqno = header.readInt32();
+    const length = header.readInt32();
+    const paddingLength = header.buffer.byteLength - length;
+    if (length < 0 || length % 4 !== 0 || paddingLength < 12 || paddingLength > 1024) {
+      this.#L.debug("received message with invalid length", length);
+      return null;
+    }
+
     return deserializeMessage(plainReader);
   }
 
-- 
2.43.0


From 2589bfbe52ec6e0634282d1885c15f6a373d6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 05/41] fix: refuse negative lengths and sizes while
 deserializing, and do not allocate by a declared size

---
 tl/1_tl_reader.ts | 9 ++++++---
 tl/2_message.ts   | 8 ++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/tl/1_tl_reader.ts b/tl/1_tl_reader.ts
index 07d6983..29e6df8 100644
--- a/tl/1_tl_reader.ts
+++ b/tl/1_tl_reader.ts
@@ -50,7 +50,7 @@ export class TLReader {
   }
 
   #readView(byteCount: number): Uint8Array<ArrayBufferLike> {
-    if (this._buffer.byteLength - this.#offset < byteCount) {
+    if (byteCount < 0 || this._buffer.byteLength - this.#offset < byteCount) {
       throw new TLError("No data remaining", this.#path);
     }
 
@@ -274,9 +274,12 @@ export class TLReader {
       }
     }
     const size = this.readInt32();
-    const array = new Array<any>(size);
+    if (size < 0) {
+      throw new TLError(`Invalid vector size: ${size}`, this.#path);
+    }
+    const array = new Array<any>();
     for (let i = 0; i < size; ++i) {
-      array[i] = this.#readField(vectorType.type, schema);
+      array.push(this.#readField(vectorType.type, schema));
     }
     return array;
   }
diff --git a/tl/2_message.ts b/tl/2_message.ts
index c0ca621..0d14346 100644
--- a/tl/2_message.ts
+++ b/tl/2_message.ts
@@ -18,6 +18,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+import { TLError } from "../0_errors.ts";
 import { TLReader } from "./1_tl_reader.ts";
 import type { TLWriter } from "./1_tl_writer.ts";
 
@@ -85,9 +86,12 @@ function writeMsgContainer(writer: TLWriter, msgContainer: msg_container) {
 export function deserializeMsgContainer(buffer: Uint8Array): msg_container {
   const reader = new TLReader(buffer);
   const length = reader.readInt32();
-  const messages = new Array<message>(length);
+  if (length < 0) {
+    throw new TLError(`Invalid container size: ${length}`, []);
+  }
+  const messages = new Array<message>();
   for (let i = 0; i < length; i++) {
-    messages[i] = deserializeMessage(reader);
+    messages.push(deserializeMessage(reader));
   }
   return { _: "msg_container", messages };
 }
-- 
2.43.0


From f43b81d3e3c870abd308ed005e807c964726c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 06/41] fix: verify the server's answers during the key
 exchange

The nonces and the hash of server_DH_params_ok, the group and g_a, and the
final new_nonce_hash1 were not checked, and an answer to req_pq_multi with
another nonce was used after ten tries.
---
 client/1_client_plain.ts | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 919b23a..86e907e 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -20,12 +20,13 @@
 
 import { assert, assertEquals, concat, ige256Decrypt, ige256Encrypt, unreachable } from "../0_deps.ts";
 import { factorize, getLogger, getRandomInt, intFromBytes, intToBytes, modExp, rsaPad, sha1 } from "../1_utilities.ts";
-import { Mtproto } from "../2_tl.ts";
+import { Mtproto, TLReader } from "../2_tl.ts";
 import { type DC, getDcId } from "../3_transport.ts";
 import { PUBLIC_KEYS, type PublicKeys, TEMPORARY_AUTH_KEY_TTL } from "../4_constants.ts";
 import { PublicKeyError } from "../4_errors.ts";
 import { type SessionParams, SessionPlain } from "../4_session.ts";
 import { ClientAbstract } from "./0_client_abstract.ts";
+import { isGoodModExpFirst, isSafePrime } from "./0_password.ts";
 
 const L = getLogger("ClientPlain");
 const LcreateAuthKey = L.branch("createAuthKey");
@@ -60,10 +61,11 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     for (let i = 0; i < 10; i++) {
       try {
         LcreateAuthKey.debug(`req_pq_multi [${i + 1}]`);
-        resPq = await this.invoke({ _: "req_pq_multi", nonce });
+        const result = await this.invoke({ _: "req_pq_multi", nonce });
 
-        assert(Mtproto.is("resPQ", resPq));
-        assertEquals(resPq.nonce, nonce);
+        assert(Mtproto.is("resPQ", result));
+        assertEquals(result.nonce, nonce);
+        resPq = result;
         LcreateAuthKey.debug("got res_pq");
         break;
       } catch (err) {
@@ -141,6 +143,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     });
 
     assert(Mtproto.is("server_DH_params_ok", dhParams));
+    assertEquals(dhParams.nonce, nonce);
+    assertEquals(dhParams.server_nonce, serverNonce);
     LcreateAuthKey.debug("got server_DH_params_ok");
 
     const newNonce_ = intToBytes(newNonce, 32);
@@ -154,10 +158,18 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const tmpAesIv = concat([sha1ServerNonceNewNonce.subarray(12, 20), sha1NewNonce, newNonce_.subarray(0, 4)]);
     const answerWithHash = ige256Decrypt(dhParams.encrypted_answer, tmpAesKey, tmpAesIv);
 
-    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerWithHash.slice(20));
+    const answerReader = new TLReader(answerWithHash.subarray(20));
+    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerReader);
+    const answer = answerWithHash.slice(20, answerWithHash.byteLength - answerReader.buffer.byteLength);
+    assertEquals(await sha1(answer), answerWithHash.slice(0, 20));
+    assertEquals(dhInnerData.nonce, nonce);
+    assertEquals(dhInnerData.server_nonce, serverNonce);
+
     const { g, g_a: gA_, dh_prime: dhPrime_ } = dhInnerData;
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
+    assert(isSafePrime(dhPrime_, g));
+    assert(isGoodModExpFirst(gA, dhPrime));
 
     const b = getRandomInt(256, false);
     const gB = modExp(BigInt(g), b, dhPrime);
@@ -193,6 +205,12 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const authKey_ = modExp(gA, b, dhPrime);
     const authKey = intToBytes(authKey_, 256, { byteOrder: "big", isSigned: false });
 
+    const authKeyAuxHash = (await sha1(authKey)).subarray(0, 8);
+    const newNonceHash1 = (await sha1(concat([newNonce_, new Uint8Array([1]), authKeyAuxHash]))).subarray(4);
+    assertEquals(dhGenOk.nonce, nonce);
+    assertEquals(dhGenOk.server_nonce, serverNonce);
+    assertEquals(dhGenOk.new_nonce_hash1, intFromBytes(newNonceHash1));
+
     LcreateAuthKey.debug("auth key created");
 
     return [authKey, intFromBytes(salt)];
-- 
2.43.0


From eea93a5b8308b850e0b90d6359ff9abc2002a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 07/41] fix: refuse over-long primes and out-of-range srp_B

---
 client/0_password.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/0_password.ts b/client/0_password.ts
index f5eddbc..0a3cc92 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -48,7 +48,7 @@ export function isSafePrime(primeBytes: Uint8Array, g: number) {
       0x6F, 0x4F, 0xAD, 0xF0, 0x34, 0xB1, 0x04, 0x03, 0x11, 0x9C, 0xD8, 0xE3,
       0xB9, 0x2F, 0xCC, 0x5B,
   ]);
-  if (goodPrime.every((v, i) => v === primeBytes[i])) {
+  if (primeBytes.length === goodPrime.length && goodPrime.every((v, i) => v === primeBytes[i])) {
     if ([3, 4, 5, 7].includes(g)) {
       return true;
     }
@@ -136,6 +136,9 @@ export async function checkPassword(password_: string, ap: Api.account_Password)
 
   // g_b := srp_B
   const gB = intFromBytes(srpB, { byteOrder: "big", isSigned: false });
+  if (gB <= 0n || gB >= p) {
+    throw new TypeError("Received invalid srpB.");
+  }
 
   // k := H(p | g)
   const k = intFromBytes(await h(concat([pad(p), pad(g)])), { byteOrder: "big", isSigned: false });
-- 
2.43.0


From e97f3e28ba106797d21f25e17c44141ea069fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 08/41] fix: order storage keys of different kinds totally, and
 cover exactly a prefix in its key range

---
 storage/1_utilities.ts      | 66 ++++---------------------------------
 storage/2_storage_memory.ts |  3 ++
 2 files changed, 9 insertions(+), 60 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 3a5ab42..c8215e4 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -128,71 +128,17 @@ export function restoreKey(key: readonly IDBValidKey[]): StorageKeyPart[] {
   });
 }
 
-// Source: https://gist.github.com/inexorabletash/5462871
-// deno-lint-ignore no-explicit-any
-export function getPrefixKeyRange(prefix: any): IDBKeyRange {
-  // Ensure prefix is a valid key itself:
-  if (indexedDB.cmp(prefix, prefix) !== 0) throw new TypeError();
-
-  const upperKey = successor(prefix);
-  if (upperKey === undefined) return IDBKeyRange.lowerBound(prefix);
-  return IDBKeyRange.bound(prefix, upperKey, false, true);
-}
-const MAX_DATE_VALUE = 8640000000000000;
-const UPPER_BOUND = {
-  NUMBER: new Date(-MAX_DATE_VALUE),
-  DATE: "",
-  STRING: [],
-  ARRAY: undefined,
-};
-// deno-lint-ignore no-explicit-any
-function successor(key: any) {
-  if (typeof key === "number") {
-    if (key === Infinity) return UPPER_BOUND.NUMBER;
-    if (key === -Infinity) return -Number.MAX_VALUE;
-    if (key === 0) return Number.MIN_VALUE;
-    let epsilon = Math.abs(key);
-    while (key + epsilon / 2 !== key) epsilon = epsilon / 2;
-    return key + epsilon;
-  }
-
-  if (key instanceof Date) {
-    if (key.valueOf() + 1 > MAX_DATE_VALUE) return UPPER_BOUND.DATE;
-    return new Date(key.valueOf() + 1);
-  }
-
-  if (typeof key === "string") {
-    let len = key.length;
-    while (len > 0) {
-      const head = key.substring(0, len - 1),
-        tail = key.charCodeAt(len - 1);
-      if (tail !== 0xffff) return head + String.fromCharCode(tail + 1);
-      key = head;
-      --len;
-    }
-    return UPPER_BOUND.STRING;
-  }
-
-  if (Array.isArray(key)) {
-    key = key.slice(); // Operate on a copy.
-    let len = key.length;
-    while (len > 0) {
-      const tail = successor(key.pop());
-      if (tail !== undefined) {
-        key.push(tail);
-        return key;
-      }
-      --len;
-    }
-    return UPPER_BOUND.ARRAY;
-  }
-
-  throw new TypeError();
+export function getPrefixKeyRange(prefix: IDBValidKey[]): IDBKeyRange {
+  // No fixed key part sorts after an array whose first item is an array.
+  return IDBKeyRange.bound(prefix, [...prefix, [[]]], false, true);
 }
 
 export function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]): number {
   const length = Math.min(left.length, right.length);
   for (let i = 0; i < length; ++i) {
+    if (typeof left[i] !== typeof right[i] && (typeof left[i] === "string" || typeof right[i] === "string")) {
+      return typeof left[i] === "string" ? 1 : -1;
+    }
     if (left[i] < right[i]) {
       return -1;
     } else if (left[i] > right[i]) {
diff --git a/storage/2_storage_memory.ts b/storage/2_storage_memory.ts
index 7cb2bd6..d723c32 100644
--- a/storage/2_storage_memory.ts
+++ b/storage/2_storage_memory.ts
@@ -25,6 +25,9 @@ import { fromString, isInRange, toString } from "./1_utilities.ts";
 function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]) {
   const length = Math.min(left.length, right.length);
   for (let i = 0; i < length; ++i) {
+    if (typeof left[i] !== typeof right[i] && (typeof left[i] === "string" || typeof right[i] === "string")) {
+      return typeof left[i] === "string" ? 1 : -1;
+    }
     if (left[i] < right[i]) {
       return -1;
     } else if (left[i] > right[i]) {
-- 
2.43.0


From f2574ee8799173dc229a49faac72107fcf1151e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 09/41] fix: skip keys of other storages and shorter keys in
 storage queries, and answer inverted ranges with nothing

---
 storage/1_utilities.ts                  | 14 +++++++
 storage/2_storage_indexed_db.ts         |  7 +++-
 storage/2_storage_local_storage.node.ts | 56 ++++++++++++-------------
 storage/2_storage_local_storage.ts      | 56 ++++++++++++-------------
 storage/2_storage_session_storage.ts    | 56 ++++++++++++-------------
 5 files changed, 98 insertions(+), 91 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index c8215e4..c7b9a19 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -133,6 +133,20 @@ export function getPrefixKeyRange(prefix: IDBValidKey[]): IDBKeyRange {
   return IDBKeyRange.bound(prefix, [...prefix, [[]]], false, true);
 }
 
+/** Decodes a text key of the storage with the specified prefix. Returns `null` if the key belongs to another storage. */
+export function getKeyParts(key: string, prefix: string): StorageKeyPart[] | null {
+  if (!key.startsWith(prefix + ValueType.Array)) {
+    return null;
+  }
+  key = key.slice(prefix.length);
+  try {
+    const parts = fromString<StorageKeyPart[]>(key);
+    return toString(parts) === key ? parts : null;
+  } catch {
+    return null;
+  }
+}
+
 export function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]): number {
   const length = Math.min(left.length, right.length);
   for (let i = 0; i < length; ++i) {
diff --git a/storage/2_storage_indexed_db.ts b/storage/2_storage_indexed_db.ts
index ad77764..5d09dca 100644
--- a/storage/2_storage_indexed_db.ts
+++ b/storage/2_storage_indexed_db.ts
@@ -163,7 +163,12 @@ export class StorageIndexedDB implements Storage {
     if ("prefix" in filter) {
       keyRange = getPrefixKeyRange(fixKey(filter.prefix));
     } else {
-      keyRange = IDBKeyRange.bound(fixKey(filter.start), fixKey(filter.end), false, false);
+      const start = fixKey(filter.start);
+      const end = fixKey(filter.end);
+      if (indexedDB.cmp(start, end) > 0) {
+        return;
+      }
+      keyRange = IDBKeyRange.bound(start, end, false, false);
     }
     const keys = await new Promise<(readonly StorageKeyPart[])[]>((res, rej) => {
       const items = new Array<readonly StorageKeyPart[]>();
diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 5ced7f1..e80da68 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -20,7 +20,7 @@
 
 import { LocalStorage } from "node-localstorage";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, getKeyParts, isInRange, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   #prefix: string;
@@ -71,44 +71,40 @@ export class StorageLocalStorage implements Storage {
   }
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
-    const entries = Object.entries(this.#storage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+    const entries = new Array<[StorageKeyPart[], string]>();
+    for (const [key, value] of Object.entries(this.#storage)) {
+      const parts = getKeyParts(key, this.prefix);
+      if (parts !== null) {
+        entries.push([parts, value]);
+      }
+    }
+    entries.sort(([a], [b]) => compareKeys(a, b));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const [parts, value] of entries) {
+      if ("prefix" in filter) {
+        if (parts.length < filter.prefix.length) {
+          continue;
+        }
+        for (const [i, p] of filter.prefix.entries()) {
+          if (toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 1908bc2..0ec69c4 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -19,7 +19,7 @@
  */
 
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, getKeyParts, isInRange, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   readonly #prefix: string;
@@ -71,44 +71,40 @@ export class StorageLocalStorage implements Storage {
   }
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
-    const entries = Object.entries(localStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+    const entries = new Array<[StorageKeyPart[], string]>();
+    for (const [key, value] of Object.entries(localStorage)) {
+      const parts = getKeyParts(key, this.prefix);
+      if (parts !== null) {
+        entries.push([parts, value]);
+      }
+    }
+    entries.sort(([a], [b]) => compareKeys(a, b));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const [parts, value] of entries) {
+      if ("prefix" in filter) {
+        if (parts.length < filter.prefix.length) {
+          continue;
+        }
+        for (const [i, p] of filter.prefix.entries()) {
+          if (toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index eea0c55..cf91979 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -20,7 +20,7 @@
 
 import type { MaybePromise } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, getKeyParts, isInRange, toString } from "./1_utilities.ts";
 
 export class StorageSessionStorage implements Storage {
   readonly #prefix: string;
@@ -72,44 +72,40 @@ export class StorageSessionStorage implements Storage {
   }
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
-    const entries = Object.entries(sessionStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+    const entries = new Array<[StorageKeyPart[], string]>();
+    for (const [key, value] of Object.entries(sessionStorage)) {
+      const parts = getKeyParts(key, this.prefix);
+      if (parts !== null) {
+        entries.push([parts, value]);
+      }
+    }
+    entries.sort(([a], [b]) => compareKeys(a, b));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const [parts, value] of entries) {
+      if ("prefix" in filter) {
+        if (parts.length < filter.prefix.length) {
+          continue;
+        }
+        for (const [i, p] of filter.prefix.entries()) {
+          if (toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
-- 
2.43.0


From 83e8bcf64da59b661c92a32511d6a122d7c86465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 10/41] fix: keep a value set while the same entry is being
 read from the storage

---
 client/0_storage_operations.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 556ca19..84a6853 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -758,8 +758,11 @@ class StorageMap<K extends StorageKeyPart[], V> {
     const key_ = toString(key);
     let value = this.#cache.get(key_);
     if (value === undefined) {
-      value = await this.#storage.get<V>([this.#path, ...key]);
-      this.#cache.set(key_, value);
+      const stored = await this.#storage.get<V>([this.#path, ...key]);
+      value = this.#cache.get(key_);
+      if (value === undefined) { // not set in the meantime
+        this.#cache.set(key_, value = stored);
+      }
     }
     return value;
   }
@@ -819,7 +822,10 @@ class StorageValue<T> {
 
   async get(): Promise<T | null> {
     if (this.#value === undefined) {
-      this.#value = await this.#storage.get(this.#key);
+      const stored = await this.#storage.get<T>(this.#key);
+      if (this.#value === undefined) { // not set in the meantime
+        this.#value = stored;
+      }
     }
     return this.#value;
   }
-- 
2.43.0


From bff92507b45c54469a72d1350cb0ea6345323a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 11/41] fix: read updates and messages found by a storage query
 back as objects

---
 client/0_storage_operations.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 84a6853..663a8e8 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -260,9 +260,10 @@ export class StorageOperations {
     }
   }
 
-  async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
+  async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | [string, Uint8Array] | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
+    const isStoredObject = Array.isArray(keyOrBuffer) && keyOrBuffer[1] instanceof Uint8Array;
     // @ts-ignore: TBD
-    const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
+    const buffer = (keyOrBuffer instanceof Uint8Array || isStoredObject || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
     if (buffer !== null) {
       if (buffer instanceof Uint8Array) {
         return Api.deserializeType(X, rleDecode(buffer));
@@ -360,7 +361,7 @@ export class StorageOperations {
     }
     ++limit;
     const messages = new Array<Api.Message>();
-    for await (const [_, buffer] of await this.#storage.getMany<Uint8Array>({ start: K.messages.message(chatId, 0), end: K.messages.message(chatId, offsetId) }, { limit, reverse: true })) {
+    for await (const [_, buffer] of await this.#storage.getMany<[string, Uint8Array]>({ start: K.messages.message(chatId, 0), end: K.messages.message(chatId, offsetId) }, { limit, reverse: true })) {
       const message = await this.getTlObject(buffer) as Api.Message;
       if ("id" in message && message.id === offsetId) {
         continue;
@@ -515,7 +516,7 @@ export class StorageOperations {
   }
 
   async getFirstUpdate(boxId: bigint): Promise<[readonly StorageKeyPart[], Api.Update] | null> {
-    for await (const [key, update] of await this.#storage.getMany<Uint8Array>({ prefix: K.updates.updates(boxId) }, { limit: 1 })) {
+    for await (const [key, update] of await this.#storage.getMany<[string, Uint8Array]>({ prefix: K.updates.updates(boxId) }, { limit: 1 })) {
       return [key, (await this.getTlObject(update)) as Api.Update];
     }
     return null;
-- 
2.43.0


From 54bab2fd79fc3ff975d64c141f5506f130729930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 12/41] fix: apply pushed updates outside of gap recoveries,
 and recover a gap that a joined recovery left

---
 client/2_update_manager.ts | 93 ++++++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 29 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 73f6aae..ea92efb 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -356,15 +356,21 @@ export class UpdateManager {
   }
 
   async #checkGap(pts: number, ptsCount: number) {
-    const localState = await this.#getLocalState();
-    if (localState.pts < pts && localState.pts + ptsCount !== pts) {
-      await this.recoverUpdateGap("processUpdates[pts]");
+    let localState = await this.#getLocalState();
+    while (localState.pts < pts && localState.pts + ptsCount !== pts) {
+      if (await this.recoverUpdateGap("processUpdates[pts]")) {
+        break;
+      }
+      localState = await this.#getLocalState();
     }
   }
   async #checkGapQts(qts: number) {
-    const localState = await this.#getLocalState();
-    if (localState.qts + UpdateManager.QTS_COUNT < qts) {
-      await this.recoverUpdateGap("processUpdates[qts]");
+    let localState = await this.#getLocalState();
+    while (localState.qts + UpdateManager.QTS_COUNT < qts) {
+      if (await this.recoverUpdateGap("processUpdates[qts]")) {
+        break;
+      }
+      localState = await this.#getLocalState();
     }
   }
   async #checkChannelGap(channelId: bigint, pts: number, ptsCount: number) {
@@ -391,11 +397,20 @@ export class UpdateManager {
       await this.#recoverChannelUpdateGap(channelId, "updateChannelTooLong");
       return;
     }
+    if (update.pts !== 0 && checkGap) {
+      await this.#checkChannelGap(channelId, update.pts, update.pts_count);
+    }
+    const unlock = await this.#getRecoverChannelUpdateGapMutex(channelId).lock();
+    try {
+      await this.#applyChannelPtsUpdate(channelId, update);
+    } finally {
+      unlock();
+    }
+  }
+
+  async #applyChannelPtsUpdate(channelId: bigint, update: Exclude<ChannelPtsUpdate, Api.updateChannelTooLong>) {
     if (update.pts !== 0) {
       const ptsCount = update.pts_count;
-      if (checkGap) {
-        await this.#checkChannelGap(channelId, update.pts, ptsCount);
-      }
       let currentPts: number | null = await this.#getChannelPtsWithDropPendingUpdatesCheck(channelId);
       currentPts ??= update.pts - ptsCount;
       if (currentPts + ptsCount > update.pts) {
@@ -441,7 +456,15 @@ export class UpdateManager {
         await this.recoverUpdateGap("needsGetDifference");
       }
     }
+    const unlock = await this.#recoverUpdateGapMutex.lock();
+    try {
+      await this.#applyPtsUpdate(update);
+    } finally {
+      unlock();
+    }
+  }
 
+  async #applyPtsUpdate(update: PtsUpdate) {
     const localState = await this.#getLocalState();
     if (update.pts !== 0 && localState.pts + update.pts_count > update.pts) {
       return;
@@ -464,15 +487,21 @@ export class UpdateManager {
   }
 
   async #processQtsUpdateInner(update: QtsUpdate, checkGap: boolean) {
-    let localState = await this.#getLocalState();
-    if (update.qts !== 0) {
-      if (checkGap) {
-        await this.#checkGapQts(update.qts);
-        localState = await this.#getLocalState();
-      }
-      if (localState.qts + UpdateManager.QTS_COUNT > update.qts) {
-        return;
-      }
+    if (update.qts !== 0 && checkGap) {
+      await this.#checkGapQts(update.qts);
+    }
+    const unlock = await this.#recoverUpdateGapMutex.lock();
+    try {
+      await this.#applyQtsUpdate(update);
+    } finally {
+      unlock();
+    }
+  }
+
+  async #applyQtsUpdate(update: QtsUpdate) {
+    const localState = await this.#getLocalState();
+    if (update.qts !== 0 && localState.qts + UpdateManager.QTS_COUNT > update.qts) {
+      return;
     }
 
     if (this.#c.guaranteeUpdateDelivery) {
@@ -700,13 +729,14 @@ export class UpdateManager {
 
   #updateGapRecoveryCount = 0;
   #recoverUpdateGapMutex = new Mutex();
-  async recoverUpdateGap(source: string) {
+  /** Returns `false` if a recovery that had already been running ended instead. */
+  async recoverUpdateGap(source: string): Promise<boolean> {
     const updateGapRecoveryCount = this.#updateGapRecoveryCount;
     const unlock = await this.#recoverUpdateGapMutex.lock();
     if (updateGapRecoveryCount !== this.#updateGapRecoveryCount) {
       this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
       unlock();
-      return;
+      return false;
     }
     this.#LrecoverUpdateGap.debug(`recovering from update gap [${source}]`);
 
@@ -737,16 +767,16 @@ export class UpdateManager {
           this.#LrecoverUpdateGap.debug("processing", difference.new_messages.length, "new message(s)");
           this.#LrecoverUpdateGap.debug("processing", difference.other_updates.length, "other update(s)");
           for (const message of difference.new_messages) {
-            await this.#processPtsUpdateInner({ _: "updateNewMessage", message, pts: 0, pts_count: 0 }, false);
+            await this.#applyPtsUpdate({ _: "updateNewMessage", message, pts: 0, pts_count: 0 });
           }
           for (const message of difference.new_encrypted_messages) {
-            await this.#processQtsUpdateInner({ _: "updateNewEncryptedMessage", qts: 0, message }, false);
+            await this.#applyQtsUpdate({ _: "updateNewEncryptedMessage", qts: 0, message });
           }
           for (const update of difference.other_updates) {
             if (UpdateManager.isPtsUpdate(update)) {
-              await this.#processPtsUpdateInner(update, false);
+              await this.#applyPtsUpdate(update);
             } else if (UpdateManager.isQtsUpdate(update)) {
-              await this.#processQtsUpdateInner(update, false);
+              await this.#applyQtsUpdate(update);
             } else {
               await this.#processUpdates(update, false);
             }
@@ -788,16 +818,21 @@ export class UpdateManager {
       unlock();
       this.#c.resetConnectionState();
     }
+    return true;
   }
 
   #recoverChannelUpdateGapMutexes = new Map<bigint, Mutex>();
-  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
+  #getRecoverChannelUpdateGapMutex(channelId: bigint) {
     let mutex = this.#recoverChannelUpdateGapMutexes.get(channelId);
     if (!mutex) {
       mutex = new Mutex();
       this.#recoverChannelUpdateGapMutexes.set(channelId, mutex);
     }
-    const unlock = await mutex.lock();
+    return mutex;
+  }
+
+  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
+    const unlock = await this.#getRecoverChannelUpdateGapMutex(channelId).lock();
     try {
       return await this.#recoverChannelUpdateGapInner(channelId, source);
     } finally {
@@ -839,11 +874,11 @@ export class UpdateManager {
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.new_messages) {
-          await this.#processChannelPtsUpdateInner({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
+          await this.#applyChannelPtsUpdate(channelId, { _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 });
         }
         for (const update of difference.other_updates) {
           if (UpdateManager.isChannelPtsUpdate(update) && !Api.is("updateChannelTooLong", update)) {
-            await this.#processChannelPtsUpdateInner(update, false);
+            await this.#applyChannelPtsUpdate(channelId, update);
           } else {
             await this.#processUpdates(update, false);
           }
@@ -861,7 +896,7 @@ export class UpdateManager {
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.messages) {
-          await this.#processUpdates({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
+          await this.#applyChannelPtsUpdate(channelId, { _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 });
         }
         const pts_ = Api.as("dialog", difference.dialog).pts;
         if (pts_ !== undefined) {
-- 
2.43.0


From f7d50df4547a2c0b10a0af1815ca79a9506ba15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 13/41] fix: request the difference when a joined recovery
 leaves a seq gap

---
 client/2_update_manager.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index ea92efb..0f1a660 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -544,10 +544,13 @@ export class UpdateManager {
         } else {
           let localState = await this.#getLocalState();
 
-          if (localState.seq + 1 < seqStart) {
+          while (localState.seq + 1 < seqStart) {
             // There's an update gap that must be filled.
-            await this.recoverUpdateGap("localSeq + 1 < seqStart");
+            const wasRecovered = await this.recoverUpdateGap("localSeq + 1 < seqStart");
             localState = await this.#getLocalState();
+            if (wasRecovered) {
+              break;
+            }
           }
 
           if (localState.seq + 1 === seqStart) {
-- 
2.43.0


From 32abcb9dd9cd1b2c549f31f55ee5bf4387efc7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 14/41] fix: deliver updates stored while the last stored one
 is looked up

---
 client/2_update_manager.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 0f1a660..545fed5 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -923,6 +923,7 @@ export class UpdateManager {
   }
 
   #handleUpdatesSet = new Set<bigint>();
+  #handleUpdatesAgainSet = new Set<bigint>();
   async replayStoredUpdates() {
     for (const boxId of await this.#c.storage.getUpdateBoxIds()) {
       await this.#handleStoredUpdates(boxId);
@@ -931,13 +932,18 @@ export class UpdateManager {
 
   async #handleStoredUpdates(boxId: bigint) {
     if (this.#handleUpdatesSet.has(boxId)) {
+      this.#handleUpdatesAgainSet.add(boxId);
       return;
     }
     this.#handleUpdatesSet.add(boxId);
     try {
       do {
+        this.#handleUpdatesAgainSet.delete(boxId);
         const maybeUpdate = await this.#c.storage.getFirstUpdate(boxId);
         if (maybeUpdate === null) {
+          if (this.#handleUpdatesAgainSet.has(boxId)) {
+            continue;
+          }
           break;
         }
         const [key, update] = maybeUpdate;
-- 
2.43.0


From 58b7a5cdbb299ba09fd6a86a857d38b609618eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 15/41] fix: do not leave failed parts of streamed uploads
 unhandled

---
 client/2_file_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 39ec677..19f19fd 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -172,6 +172,7 @@ export class FileManager {
           }
         }),
       );
+      promises.at(-1)!.catch(() => {});
       if (promises.length === poolSize * UPLOAD_REQUEST_PER_CONNECTION) {
         await Promise.all(promises);
         promises = [];
-- 
2.43.0


From 7dc9b685ffe55c06be8596863631246ebd5e302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 16/41] fix: do not serve the small chat photo for the big one

---
 client/2_file_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 19f19fd..fcdefab 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -398,7 +398,7 @@ export class FileManager {
     if (params?.offset !== undefined) {
       FileManager.validateOffset(params.offset);
     }
-    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location ? location.photo_id : null;
+    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location && location.big ? location.photo_id : null;
     if (id !== null && this.#c.storage.supportsFiles) {
       const file = await this.#c.storage.getFile(id);
       if (file !== null && file[0] > 0) {
-- 
2.43.0


From d052e2ab02d35cf6f65e11da44abaa0681432c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 17/41] fix: do not mix the cached parts of concurrent
 downloads

---
 client/2_file_manager.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index fcdefab..cd6522b 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -391,6 +391,7 @@ export class FileManager {
     return { size: params?.fileSize ? params.fileSize : size, name, contents };
   }
 
+  #cachedIds = new Set<bigint>();
   // deno-lint-ignore no-explicit-any
   async *downloadInner(location: Api.InputFileLocation, dcId: number, params: DownloadParams | undefined): AsyncGenerator<Uint8Array<ArrayBuffer>, void, any> {
     const signal = params?.signal;
@@ -441,7 +442,7 @@ export class FileManager {
     const limit = chunkSize;
     const requestedOffset = params?.offset ?? 0;
     let offset = decryptionInformation ? 0n : BigInt(requestedOffset);
-    const cacheId = offset === 0n ? id : null;
+    const cacheId = offset === 0n && id !== null && !this.#cachedIds.has(id) ? id : null;
     let bytesToSkip = decryptionInformation ? requestedOffset : 0;
     let part = 0;
 
@@ -458,6 +459,9 @@ export class FileManager {
     };
     const requests = Array.from({ length: requestCount }, (_, i) => downloadPart(offset + BigInt(i * limit), part + i));
     let requestIndex = 0;
+    if (cacheId !== null) {
+      this.#cachedIds.add(cacheId);
+    }
 
     try {
       let finished = false;
@@ -520,6 +524,9 @@ export class FileManager {
     } finally {
       signal?.removeEventListener("abort", abortRequests);
       requestController.abort();
+      if (cacheId !== null) {
+        this.#cachedIds.delete(cacheId);
+      }
     }
   }
 
-- 
2.43.0


From b647e750f488c765e286150d141b0e083a27c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 18/41] fix: forget the reads and bytes of a closed TCP
 connection when it is reopened in Node.js

---
 connection/1_connection_tcp.node.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/1_connection_tcp.node.ts b/connection/1_connection_tcp.node.ts
index 40dd876..23f9c1a 100644
--- a/connection/1_connection_tcp.node.ts
+++ b/connection/1_connection_tcp.node.ts
@@ -58,6 +58,8 @@ export class ConnectionTCP implements Connection {
       return;
     }
 
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
-- 
2.43.0


From 6e271524cdcee03b144b83d4aeadb53737f11ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 19/41] fix: forget the reads and bytes of a closed SOCKS5
 connection when it is reopened in Node.js

---
 connection/1_connection_socks5.node.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/1_connection_socks5.node.ts b/connection/1_connection_socks5.node.ts
index ad58be9..e2598f2 100644
--- a/connection/1_connection_socks5.node.ts
+++ b/connection/1_connection_socks5.node.ts
@@ -126,6 +126,8 @@ export class ConnectionSocks5 implements Connection {
     }
 
     this.#isReady = false;
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
-- 
2.43.0


From b6c90da64289b1387b502261a557bbc6d3399b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 20/41] fix: fail reads that were waiting when a TLS connection
 was closed in Node.js

---
 connection/1_connection_tls.node.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connection/1_connection_tls.node.ts b/connection/1_connection_tls.node.ts
index 4d2062b..016c0fd 100644
--- a/connection/1_connection_tls.node.ts
+++ b/connection/1_connection_tls.node.ts
@@ -255,6 +255,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
     try {
+      this.#assertConnected();
       while (this.#packetBuffer.length < p.byteLength) {
         await this.#readPacket();
       }
-- 
2.43.0


From f0747361ce48abb57f32c3bd0bf1a5ed43258acc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 21/41] fix: refuse SOCKS5 answers with an address type that
 does not exist

---
 connection/1_connection_socks5.node.ts | 2 ++
 connection/1_connection_socks5.ts      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/connection/1_connection_socks5.node.ts b/connection/1_connection_socks5.node.ts
index e2598f2..13e275a 100644
--- a/connection/1_connection_socks5.node.ts
+++ b/connection/1_connection_socks5.node.ts
@@ -248,6 +248,8 @@ export class ConnectionSocks5 implements Connection {
           await this.#readFromSocket(domainName);
           break;
         }
+        default:
+          throw new ConnectionError("Connection with SOCKS5 server failed.");
       }
 
       const port = new Uint8Array(2);
diff --git a/connection/1_connection_socks5.ts b/connection/1_connection_socks5.ts
index 8ed0de0..e8cc1e3 100644
--- a/connection/1_connection_socks5.ts
+++ b/connection/1_connection_socks5.ts
@@ -184,6 +184,8 @@ export class ConnectionSocks5 implements Connection {
           await this.#readFromConnection(connection, domainName);
           break;
         }
+        default:
+          throw new ConnectionError("Connection with SOCKS5 server failed.");
       }
 
       const port = new Uint8Array(2);
-- 
2.43.0


From f2fb10b4316b99876644b6f57aab46f756e02718 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 22/41] fix: store objects with undefined members as text

---
 storage/1_utilities.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index c7b9a19..8669e04 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -56,7 +56,7 @@ export function toString(value: unknown): string {
     });
     return `${ValueType.Array}${items.join("")}`;
   } else if (typeof value === "object" && value !== null && Object.getPrototypeOf(value) === Object.prototype) {
-    return `${ValueType.Map}${toString(Object.entries(value)).slice(1)}`;
+    return `${ValueType.Map}${toString(Object.entries(value).filter(([, v]) => v !== undefined)).slice(1)}`;
   } else {
     unreachable();
   }
-- 
2.43.0


From 7465ca6eb2194747cf5531e497d785d798212305 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 23/41] fix: do not encrypt waiting secret messages with an
 erased key

---
 client/3_secret_chat_manager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 351a9ca..0fda02b 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -760,6 +760,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
   #sendTails = new Map<number, Promise<void>>();
   async #sendMessage(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file?: Api.InputEncryptedFile, isService = false) {
+    // The key might be replaced and erased while waiting for other messages to be sent.
+    authKey = authKey.slice();
     try {
       await this.#sendMessageInner(message, encryptedChat, authKey, authKeyId, file, isService);
     } finally {
-- 
2.43.0


From 14e4e022380e11350e6245cdbded1e96d6294436 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 24/41] fix: reuse the sequence number of a secret message that
 cannot be encrypted

---
 client/3_secret_chat_manager.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 0fda02b..9b292ed 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -792,7 +792,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
     const decryptedMessageLayer: SecretChats.decryptedMessageLayer = { _: "decryptedMessageLayer", in_seq_no, layer: 144, message, out_seq_no, random_bytes: crypto.getRandomValues(new Uint8Array(15)) };
 
-    const data = await this.#encryptMessage(isCreator, authKeyId, authKey, decryptedMessageLayer);
+    let data: Uint8Array<ArrayBuffer>;
+    try {
+      data = await this.#encryptMessage(isCreator, authKeyId, authKey, decryptedMessageLayer);
+    } catch (err) {
+      --this.#getSecretChatState(encryptedChat.id).outSeqNo;
+      throw err;
+    }
 
     const isSilent = !!(SecretChats.is("decryptedMessage", message) && message.silent);
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
-- 
2.43.0


From ae4d785d89f3ada717498469548227e0e62ce9bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 25/41] fix: keep a secret chat re-key pending when its message
 fails to be sent

---
 client/3_secret_chat_manager.ts | 43 ++++++++++++---------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 9b292ed..f5f84ce 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1176,16 +1176,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
-    try {
-      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    } catch (err) {
-      state.toCommitId = 0n;
-      state.toCommitAuthKey = new Uint8Array();
-      state.toCommitAuthKeyId = 0n;
-      state.toCommitAuthKeyId_ = new Uint8Array();
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // The exchange stays pending if this fails because the other side will request the message to be resent.
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionCommitKey(chatId: number, action: SecretChats.decryptedMessageActionCommitKey) {
@@ -1385,24 +1377,19 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id,
       g_a,
     };
-    try {
-      await this.#sendMessage(
-        {
-          _: "decryptedMessageService",
-          random_id,
-          action,
-        },
-        encryptedChat,
-        authKey,
-        authKeyId,
-        undefined,
-        true,
-      );
-    } catch (err) {
-      this.#clearInitiatedRekey(state);
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // The exchange stays pending if this fails because the other side will request the message to be resent.
+    await this.#sendMessage(
+      {
+        _: "decryptedMessageService",
+        random_id,
+        action,
+      },
+      encryptedChat,
+      authKey,
+      authKeyId,
+      undefined,
+      true,
+    );
   }
 
   async #maybeStartRekey(state: SecretChatState) {
-- 
2.43.0


From 762f06d8ae4e3541084ddcfc2c1a94bb179c873d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 26/41] fix: use the new key of a secret chat even if its
 confirmation fails to be sent

---
 client/3_secret_chat_manager.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index f5f84ce..82478fa 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1116,9 +1116,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id: state.rekeyId,
       key_fingerprint: authKeyId,
     };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
-    this.#clearInitiatedRekey(state);
+    try {
+      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    } finally {
+      // If sending failed, the other side will still request the message to be resent and start to use the new key.
+      this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
+      this.#clearInitiatedRekey(state);
+    }
   }
 
   async #processDecryptedMessageActionRequestKey(chatId: number, action_: SecretChats.decryptedMessageActionRequestKey) {
-- 
2.43.0


From 7532032d347ef704f0a99b06ce231ba51c6c1b1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 27/41] fix: deliver waiting secret messages when handling one
 before them fails

---
 client/3_secret_chat_manager.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 82478fa..84fe876 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -986,7 +986,14 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       state.isJustLoaded = false;
       state.remoteInSeqNo = Math.max(state.remoteInSeqNo, inSeqNo);
       ++state.inSeqNo;
-      await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      try {
+        await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      } catch (err) {
+        if (this.#getSecretChatState(chatId) !== state || !Api.is("encryptedChat", state.encryptedChat)) {
+          throw err;
+        }
+        this.#L.error("failed to handle secret message:", err);
+      }
     };
     await handle(message, encryptedMessage);
     while (true) {
-- 
2.43.0


From d4ead2158451fbaf20bc369d0d7da1d673efcee7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 28/41] fix: match updates and messages that have no field
 named after their type

---
 client/3_filters.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/3_filters.ts b/client/3_filters.ts
index 96588c5..c607784 100644
--- a/client/3_filters.ts
+++ b/client/3_filters.ts
@@ -112,7 +112,7 @@ function matchParsed<T extends object>(type_: string, other: string[], value: T)
   let type = type_;
   if (other.length === 0 && type !== "update" && "update" in value && (value.update as { _: unknown })._ === type) {
     return true;
-  } else if (type !== "" && !(type in value)) {
+  } else if (type !== "" && (value as { type?: unknown }).type !== type) {
     return false;
   }
   if (type === "") {
@@ -131,8 +131,8 @@ function matchParsed<T extends object>(type_: string, other: string[], value: T)
   }
   const field = other[0];
   if (field) {
-    if (["message", "editedMessage", "scheduledMessage"].includes(type) && (value as Record<symbol | number | string, { type: "string" }>)[type]["type"] !== field) {
-      return false;
+    if (["message", "editedMessage", "scheduledMessage", "secretMessage"].includes(type)) {
+      return (value as Record<symbol | number | string, { type: "string" }>)[type]["type"] === field;
     } else if (!(field in (value as Record<symbol | number | string, object>)[type])) {
       return false;
     }
-- 
2.43.0


From 9325ed0c27e8a2668eacab2401f32be757e6eb59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 29/41] fix: compare the whole name of a command

---
 client/4_context.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/client/4_context.ts b/client/4_context.ts
index 27f0402..2bf5b69 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -77,13 +77,12 @@ const staticHas: StaticHas = {
       if (prefix === undefined) {
         return false;
       }
-      if (cmd.includes("@")) {
-        const username = cmd.split("@", 2)[1];
-        if (username.toLowerCase() !== ctx.me!.username?.toLowerCase()) {
-          return false;
-        }
+      const name = cmd.slice(prefix.length);
+      const separator = name.indexOf("@");
+      if (separator !== -1 && name.slice(separator + 1).toLowerCase() !== ctx.me!.username?.toLowerCase()) {
+        return false;
       }
-      const command_ = cmd.split("@", 1)[0].split(prefix, 2)[1].toLowerCase();
+      const command_ = (separator === -1 ? name : name.slice(0, separator)).toLowerCase();
       for (const command of commands_) {
         if (typeof command === "string" && (command.toLowerCase() === command_)) {
           return true;
-- 
2.43.0


From d8673dd8a5ad62ed54c0eabe049d42e3b079cc2f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 30/41] fix: set the sender of chosen inline results in
 contexts

---
 client/4_context.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/4_context.ts b/client/4_context.ts
index 2bf5b69..2b308c0 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -392,6 +392,8 @@ export class Context {
         return this.update.callbackQuery.from;
       case "inlineQuery":
         return this.update.inlineQuery.from;
+      case "chosenInlineResult":
+        return this.update.chosenInlineResult.from;
       case "chatMember":
         return this.update.chatMember.from;
       case "myChatMember":
-- 
2.43.0


From 4c84be0f8be0635184c95d941b5aa10e96675b6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 31/41] fix: ask for users, not bots, when an inline button
 allows users

---
 types/1_inline_keyboard_button.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/1_inline_keyboard_button.ts b/types/1_inline_keyboard_button.ts
index 0da12e7..a4eff30 100644
--- a/types/1_inline_keyboard_button.ts
+++ b/types/1_inline_keyboard_button.ts
@@ -160,7 +160,7 @@ export function constructInlineKeyboardButton(button_: Api.KeyboardButton): Inli
     if (button_.same_peer) {
       return cleanObject({ type: "switchInlineQueryCurrentChat", text, style, inlineQuery: button_.query });
     } else if (button_.peer_types && button_.peer_types.length) {
-      const isUser = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeBotPM") || undefined;
+      const isUser = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypePM") || undefined;
       const isBot = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeSameBotPM" || v._ === "inlineQueryPeerTypeBotPM") || undefined;
       const isGroup = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeChat" || v._ === "inlineQueryPeerTypeMegagroup") || undefined;
       const isChannel = button_.peer_types.some((v) => v._ === "inlineQueryPeerTypeBroadcast") || undefined;
@@ -223,7 +223,7 @@ export async function inlineKeyboardButtonToTlObject(button: InlineKeyboardButto
         throw new InputError("switchInlineQueryChosenChats: At least one chat type must be allowed.");
       }
       if (isUser) {
-        peerTypes.push({ _: "inlineQueryPeerTypeBotPM" });
+        peerTypes.push({ _: "inlineQueryPeerTypePM" });
       }
       if (isBot) {
         peerTypes.push({ _: "inlineQueryPeerTypeSameBotPM" }, { _: "inlineQueryPeerTypeBotPM" });
-- 
2.43.0


From a598db4df72e0be32a922487aa958ae7814cd6cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 32/41] fix: keep the input field placeholder of a received
 keyboard

---
 types/2_reply_markup.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/2_reply_markup.ts b/types/2_reply_markup.ts
index bcec1e8..2937384 100644
--- a/types/2_reply_markup.ts
+++ b/types/2_reply_markup.ts
@@ -75,14 +75,15 @@ function constructReplyKeyboardMarkup(keyboard_: Api.replyKeyboardMarkup): Reply
     }
     rows.push(row);
   }
-  return {
+  return cleanObject({
     type: "keyboard",
     isResized: keyboard_.resize || false,
     isOneTime: keyboard_.single_use || false,
     isSelective: keyboard_.selective || false,
     isPersistent: keyboard_.persistent || false,
+    inputFieldPlaceholder: keyboard_.placeholder,
     keyboard: rows,
-  };
+  });
 }
 
 function replyKeyboardMarkupToTlObject(replyMarkup: ReplyMarkupKeyboard): Api.replyKeyboardMarkup {
-- 
2.43.0


From 4f6a03ee6b86aa7e0d9d7ef4b12769ef1d3907ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 33/41] fix: tell an unspecified poll type from a regular one
 in keyboard buttons

---
 types/1_keyboard_button.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/1_keyboard_button.ts b/types/1_keyboard_button.ts
index a675ea4..f7981a0 100644
--- a/types/1_keyboard_button.ts
+++ b/types/1_keyboard_button.ts
@@ -159,8 +159,8 @@ export function constructKeyboardButton(button_: Api.KeyboardButton): KeyboardBu
     if (style) {
       button.style = style;
     }
-    if (button_.quiz) {
-      button.pollType = "quiz";
+    if (button_.quiz !== undefined) {
+      button.pollType = button_.quiz ? "quiz" : "regular";
     }
     return button;
   } else if (Api.is("keyboardButtonWebView", button_) || Api.is("keyboardButtonSimpleWebView", button_)) {
@@ -220,7 +220,7 @@ export function keyboardButtonToTlObject(button: KeyboardButton): Api.KeyboardBu
       return {
         _: "keyboardButtonRequestPoll",
         text: button.text,
-        quiz: button.pollType === "quiz",
+        quiz: button.pollType === undefined ? undefined : button.pollType === "quiz",
         style,
       };
     case "miniApp":
-- 
2.43.0


From 3b707f766be0da667b0c70c4a5821aa3047b9a17 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 34/41] fix: read revoked member rights as revoked, not as
 unspecified

---
 types/0_chat_member_rights.ts | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/types/0_chat_member_rights.ts b/types/0_chat_member_rights.ts
index f87e5e2..2874664 100644
--- a/types/0_chat_member_rights.ts
+++ b/types/0_chat_member_rights.ts
@@ -78,17 +78,17 @@ export function constructChatMemberRights(rights: Api.chatBannedRights): ChatMem
     canSendVoice: canSendMedia && !rights.send_voices,
     canSendPolls: !rights.send_polls,
     canSendStickers: !rights.send_stickers,
-    canSendAnimations: !rights.send_gifs || undefined,
-    canSendGames: !rights.send_games || undefined,
-    canSendInlineBotResults: !rights.send_inline || undefined,
-    canAddWebPagePreviews: !rights.embed_links || undefined,
-    canMakeReactions: !rights.send_reactions || undefined,
-    canEditMemberTag: !rights.edit_rank || undefined,
-    canChangeInfo: !rights.change_info || undefined,
-    canInviteUsers: !rights.invite_users || undefined,
-    canPinMessages: !rights.pin_messages || undefined,
-    canManageTopics: !rights.manage_topics || undefined,
-    canManageLinkedChats: !rights.manage_linked_peers || undefined,
+    canSendAnimations: !rights.send_gifs,
+    canSendGames: !rights.send_games,
+    canSendInlineBotResults: !rights.send_inline,
+    canAddWebPagePreviews: !rights.embed_links,
+    canMakeReactions: !rights.send_reactions,
+    canEditMemberTag: !rights.edit_rank,
+    canChangeInfo: !rights.change_info,
+    canInviteUsers: !rights.invite_users,
+    canPinMessages: !rights.pin_messages,
+    canManageTopics: !rights.manage_topics,
+    canManageLinkedChats: !rights.manage_linked_peers,
   });
 }
 
-- 
2.43.0


From d17dc60ea34428a0358815432838f12320b99849 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 35/41] fix: decode numeric character references above U+FFFF

---
 client/0_html.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_html.ts b/client/0_html.ts
index 8969bdd..c0164c4 100644
--- a/client/0_html.ts
+++ b/client/0_html.ts
@@ -397,7 +397,7 @@ function decodeEntity(html: string[], i: number): [string, number] {
       code = parseInt(code_);
     }
     if (!isNaN(code) && code !== 0 && code < 0x10ffff && end - i < 10) {
-      text = String.fromCharCode(code);
+      text = String.fromCodePoint(code);
     } else {
       fallback = true;
     }
-- 
2.43.0


From a3292284843b65aef255a57aff37e23b686d26ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 36/41] fix: accept upper-case digits in hexadecimal character
 references

---
 client/0_html.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_html.ts b/client/0_html.ts
index c0164c4..9b795f4 100644
--- a/client/0_html.ts
+++ b/client/0_html.ts
@@ -439,7 +439,7 @@ function isDigit(string: string) {
   return "0" <= string && string <= "9";
 }
 function isHex(string: string) {
-  return isDigit(string) || ("a" <= string && string <= "f");
+  return isDigit(string) || ("a" <= string && string <= "f") || ("A" <= string && string <= "F");
 }
 function isSpace(string: string) {
   return string === " " || string === "\t" || string === "\r" || string === "\n" || string === "\0" || string === "\v";
-- 
2.43.0


From 7a22e43a52f11b9541a95215a07024b98fc98bef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 37/41] fix: look for white space in the link text only, not in
 all text before it

---
 client/0_html.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_html.ts b/client/0_html.ts
index 9b795f4..0be5365 100644
--- a/client/0_html.ts
+++ b/client/0_html.ts
@@ -155,7 +155,7 @@ export function parseHtml(html_: string, isSecret?: boolean): [string, (MessageE
           try {
             url = new URL(text_).href;
           } catch {
-            if (!Array.from(text).some(isSpace)) {
+            if (!Array.from(text_).some(isSpace)) {
               try {
                 url = new URL(`http://${text_}`).href;
               } catch {
-- 
2.43.0


From 61d6006d3212db08ac010bf582584445f435232d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 38/41] fix: keep the name of an attribute that follows one
 without a value

---
 client/0_html.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/0_html.ts b/client/0_html.ts
index 0be5365..c4edd86 100644
--- a/client/0_html.ts
+++ b/client/0_html.ts
@@ -327,13 +327,14 @@ export function parseAttributes(attributes: string[]): Record<string, string> {
       ++end;
     }
     const name = attributes.slice(i, end);
-    while (attributes[end] && isSpace(attributes[end])) {
-      ++end;
+    let next = end;
+    while (attributes[next] && isSpace(attributes[next])) {
+      ++next;
     }
 
     let value = new Array<string>();
-    if (attributes[end] === "=") {
-      ++end;
+    if (attributes[next] === "=") {
+      end = next + 1;
       while (attributes[end] && isSpace(attributes[end])) {
         ++end;
       }
-- 
2.43.0


From 4d1b76f17a3f2c11be06de220822cd8b71b28010 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 39/41] fix: parse fenced blocks without a language as
 preformatted blocks, not as inline code

---
 client/0_markdown.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_markdown.ts b/client/0_markdown.ts
index f4a057e..a23c1b2 100644
--- a/client/0_markdown.ts
+++ b/client/0_markdown.ts
@@ -231,7 +231,7 @@ export function parseMarkdown(text_: string, isSecret?: boolean): [string, (Mess
         case CODEPOINTS["`"]:
           if (text[i + 1] === CODEPOINTS["`"] && text[i + 2] === CODEPOINTS["`"]) {
             i += 3;
-            type = "code";
+            type = "pre";
             let languageEnd = i;
             while (text[languageEnd] !== undefined && !isWhitespace(text[languageEnd]) && text[languageEnd] !== CODEPOINTS["`"]) {
               languageEnd++;
-- 
2.43.0


From 22f9178f396f3a096f83570306ab5f519edd0967 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 40/41] fix: name the message that is actually sent when
 binding a temporary key

---
 client/2_client_encrypted.ts   | 71 ++++++++++++++++++++--------------
 session/2_session_encrypted.ts | 10 +++--
 2 files changed, 49 insertions(+), 32 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index cfa0480..717ba06 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -24,7 +24,7 @@ import { Api, type message, Mtproto, TLWriter, writeMessage, X } from "../2_tl.t
 import type { DC } from "../3_transport.ts";
 import { APP_VERSION, DEVICE_MODEL, LANG_CODE, LANG_PACK, SYSTEM_LANG_CODE, SYSTEM_VERSION, TEMPORARY_AUTH_KEY_TTL } from "../4_constants.ts";
 import { ConnectionError, ConnectionNotInited, constructTelegramError, InputError, RetryError, type TransportError } from "../4_errors.ts";
-import { SessionEncrypted, SessionError } from "../4_session.ts";
+import { type MessageBody, SessionEncrypted, SessionError } from "../4_session.ts";
 import { AbortableLoop } from "./0_abortable_loop.ts";
 import { ClientAbstract } from "./0_client_abstract.ts";
 import { isMediaFunction, repr } from "./0_utilities.ts";
@@ -33,7 +33,7 @@ import { ClientPlain, type ClientPlainParams } from "./1_client_plain.ts";
 // global ClientEncrypted ID counter for logs
 let id = 0;
 
-type SentRequest = { call: Api.AnyFunction | Mtproto.ping; promiseWithResolvers: PromiseWithResolvers<Api.DeserializedType | Mtproto.DeserializedType> };
+type SentRequest = { call: Api.AnyFunction | Mtproto.ping; prepare?: (messageId: bigint) => Promise<void>; promiseWithResolvers: PromiseWithResolvers<Api.DeserializedType | Mtproto.DeserializedType> };
 
 export interface ClientEncryptedParams extends ClientPlainParams {
   /** The app_version parameter to be passed to initConnection. It is recommended that this parameter is changed if users are authorized. Defaults to _MTKruto_. */
@@ -157,30 +157,34 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async #bindTemporaryAuthKey() {
-    const nonce = getRandomId();
-    const expires_at = toUnixTimestamp(new Date()) + TEMPORARY_AUTH_KEY_TTL;
-    this.#temporaryAuthKeyExpiresAt = fromUnixTimestamp(expires_at).getTime();
-    const object: Mtproto.bind_auth_key_inner = {
-      _: "bind_auth_key_inner",
+    const function_: Api.auth_bindTempAuthKey = {
+      _: "auth.bindTempAuthKey",
       perm_auth_key_id: this.#authKeyId,
-      nonce,
-      expires_at,
-      temp_auth_key_id: this.session.authKeyId,
-      temp_session_id: this.session.id,
+      nonce: 0n,
+      encrypted_message: new Uint8Array(),
+      expires_at: 0,
     };
-    const encrypted_message = await this.#encryptMessage({
-      _: "message",
-      seqno: 0,
-      msg_id: this.session.previewNextMessageId(),
-      body: Mtproto.serializeObject(object),
+    // The encrypted message refers to the message and the session in which it is sent.
+    await this.#invoke(function_, async (messageId) => {
+      function_.nonce = getRandomId();
+      function_.expires_at = toUnixTimestamp(new Date()) + TEMPORARY_AUTH_KEY_TTL;
+      this.#temporaryAuthKeyExpiresAt = fromUnixTimestamp(function_.expires_at).getTime();
+      const object: Mtproto.bind_auth_key_inner = {
+        _: "bind_auth_key_inner",
+        perm_auth_key_id: this.#authKeyId,
+        nonce: function_.nonce,
+        expires_at: function_.expires_at,
+        temp_auth_key_id: this.session.authKeyId,
+        temp_session_id: this.session.id,
+      };
+      function_.encrypted_message = await this.#encryptMessage({
+        _: "message",
+        seqno: 0,
+        msg_id: messageId,
+        body: Mtproto.serializeObject(object),
+      });
     });
-    await this.invoke({
-      _: "auth.bindTempAuthKey",
-      perm_auth_key_id: this.#authKeyId,
-      nonce,
-      encrypted_message,
-      expires_at,
-    }), this.#isAuthKeyBound = true;
+    this.#isAuthKeyBound = true;
   }
 
   #temporaryAuthKeyRefreshLoop = new AbortableLoop(async (_loop, signal) => {
@@ -272,11 +276,16 @@ export class ClientEncrypted extends ClientAbstract {
 
   #isConnectionInitialized = false;
   lastRequest?: Date;
-  async #send(function_: Api.AnyFunction | Mtproto.ping, onMessageId: (messageId: bigint) => () => void) {
+  async #send(function_: Api.AnyFunction | Mtproto.ping, onMessageId: (messageId: bigint) => () => void, prepare?: (messageId: bigint) => Promise<void>) {
     this.lastRequest = new Date();
-    let body: Uint8Array<ArrayBuffer>;
+    let body: MessageBody;
     if (Mtproto.is("ping", function_)) {
       body = Mtproto.serializeObject(function_);
+    } else if (prepare) {
+      body = async (messageId) => {
+        await prepare(messageId);
+        return Api.serializeObject(function_ as Api.AnyFunction);
+      };
     } else {
       if (this.#isAuthKeyBound && this.#params?.disableUpdates && !isMediaFunction(function_)) {
         function_ = { _: "invokeWithoutUpdates", query: function_ };
@@ -330,7 +339,7 @@ export class ClientEncrypted extends ClientAbstract {
       await this.#send(request.call, (messageId) => {
         this.#sentRequests.set(messageId, request);
         return () => this.#sentRequests.delete(messageId);
-      });
+      }, request.prepare);
     } catch (err) {
       this.#L.error("rejecting message because of resend error:", err);
       request.promiseWithResolvers.reject(err);
@@ -338,13 +347,17 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
-    const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
+    return await this.#invoke(function_) as R;
+  }
+
+  async #invoke(function_: Api.AnyFunction | Mtproto.ping, prepare?: (messageId: bigint) => Promise<void>) {
+    const sentRequest: SentRequest = { call: function_, prepare, promiseWithResolvers: Promise.withResolvers() };
     await this.#send(function_, (messageId) => {
       this.#L.debug("sending", function_._, "with msg_id", messageId);
       this.#sentRequests.set(messageId, sentRequest);
       return () => this.#sentRequests.delete(messageId);
-    });
-    return await sentRequest.promiseWithResolvers.promise as R;
+    }, prepare);
+    return await sentRequest.promiseWithResolvers.promise;
   }
 
   async #onTransportError(transportError: TransportError) {
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 61c24d2..fb80f21 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -36,7 +36,9 @@ const RPC_ERROR = Mtproto.schema.definitions["rpc_error"][0];
 const COMPRESSION_THRESHOLD = 0.9;
 const LARGE_PACKET_SIZE = 16384;
 
-type PendingMessage = { body: Uint8Array<ArrayBuffer>; onMessageId: (messageId: bigint) => () => void; promiseWithResolvers: PromiseWithResolvers<void> };
+export type MessageBody = Uint8Array<ArrayBuffer> | ((messageId: bigint) => Promise<Uint8Array<ArrayBuffer>>);
+
+type PendingMessage = { body: MessageBody; onMessageId: (messageId: bigint) => () => void; promiseWithResolvers: PromiseWithResolvers<void> };
 
 type PendingPing = { call: Mtproto.ping_delay_disconnect; promiseWithResolvers: PromiseWithResolvers<Mtproto.pong> };
 
@@ -212,7 +214,9 @@ export class SessionEncrypted extends Session implements Session {
     drop(this.handlers.onNewServerSalt?.(newServerSalt));
   }
 
-  async send(body: Uint8Array<ArrayBuffer>, onMessageId: (messageId: bigint) => () => void) {
+  async send(body: Uint8Array<ArrayBuffer>, onMessageId: (messageId: bigint) => () => void): Promise<void>;
+  async send(body: MessageBody, onMessageId: (messageId: bigint) => () => void): Promise<void>;
+  async send(body: MessageBody, onMessageId: (messageId: bigint) => () => void) {
     if (!this.isDisconnected && !this.isConnected) {
       await super.waitUntilConnected();
     }
@@ -371,7 +375,7 @@ export class SessionEncrypted extends Session implements Session {
       unregister = pendingMessage.onMessageId(msg_id);
 
       let shouldGzip = false;
-      let body = pendingMessage.body;
+      let body = typeof pendingMessage.body === "function" ? await pendingMessage.body(msg_id) : pendingMessage.body;
       if (body.byteLength > 1024) {
         this.#L.debug("gzipping message", msg_id);
         shouldGzip = true;
-- 
2.43.0


From 5174a1a3398ae8d55681631819a17a9f634d86ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 41/41] fix: settle requests whose session ends while they are
 written

---
 session/2_session_encrypted.ts | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index fb80f21..d3f74fe 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -366,12 +366,15 @@ export class SessionEncrypted extends Session implements Session {
     }
     this.#pendingMessages[this.#pendingMessageHead++] = undefined;
 
-    let msg_id: bigint;
+    let msg_id: bigint | undefined;
+    let ackMsgId: bigint | undefined;
     let message: message;
     let unregister: (() => void) | undefined;
 
     try {
       msg_id = this.state.nextMessageId();
+      // The message can fail or be answered before it is fully written.
+      this.#sentMessages.add(msg_id);
       unregister = pendingMessage.onMessageId(msg_id);
 
       let shouldGzip = false;
@@ -401,6 +404,11 @@ export class SessionEncrypted extends Session implements Session {
         }
       }
 
+      if (!this.#sentMessages.has(msg_id)) {
+        pendingMessage.promiseWithResolvers.resolve();
+        return;
+      }
+
       const seqno = this.state.nextSeqNo(true);
       message = {
         _: "message",
@@ -420,7 +428,7 @@ export class SessionEncrypted extends Session implements Session {
           body: Mtproto.serializeObject({ _: "msgs_ack", msg_ids }),
         };
         this.#LsendLoop.debug("msgs_ack msg_id =", ack.msg_id, "seqno =", seqno);
-        this.#pendingAcks.set(ack.msg_id, msg_ids);
+        this.#pendingAcks.set(ackMsgId = ack.msg_id, msg_ids);
         message = {
           _: "message",
           msg_id: this.state.nextMessageId(),
@@ -434,19 +442,29 @@ export class SessionEncrypted extends Session implements Session {
       }
 
       const payload = await this.#encryptMessage(message);
+      if (!this.#sentMessages.has(msg_id)) {
+        throw new SessionError("The message failed before it was sent.");
+      }
+      if (!(message.body instanceof Uint8Array)) {
+        this.#containers.set(message.msg_id, message.body.messages.map((v) => v.msg_id));
+      }
       await this.transport.transport.send(payload);
     } catch (err) {
+      if (ackMsgId !== undefined) {
+        this.#onMessageFailed(ackMsgId, err);
+      }
+      if (msg_id !== undefined && !this.#sentMessages.delete(msg_id)) {
+        pendingMessage.promiseWithResolvers.resolve();
+        return;
+      }
       pendingMessage.promiseWithResolvers.reject(err);
       unregister?.();
       return;
     }
 
     this.#LsendLoop.out(message);
-    this.#sentMessages.add(msg_id);
     if (!(message.body instanceof Uint8Array)) {
-      const msg_ids = message.body.messages.map((v) => v.msg_id);
-      this.#LsendLoop.debug("sent container", message.msg_id, "with messages", ...msg_ids);
-      this.#containers.set(message.msg_id, msg_ids);
+      this.#LsendLoop.debug("sent container", message.msg_id, "with messages", ...message.body.messages.map((v) => v.msg_id));
     } else {
       this.#LsendLoop.debug("sent message", message.msg_id);
     }
-- 
2.43.0

