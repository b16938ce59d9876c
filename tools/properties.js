"use strict";
// Single source for properties.jsonl and MANIFEST.json (node tools/gen.js).
const P = [];
const p = (id, title, statement, over, text, why, files, mechanism, more = {}) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...(more.state ? { state: more.state } : {}) }, level_note: more.note, na: more.na, claimed: more.claimed });

p("C01", "TL numbers survive serialization and deserialization unchanged",
  "Every 32-bit, 64-bit, 128-bit and 256-bit integer and every double that is written to the wire format is read back as the same value, occupies exactly its fixed width, and is laid out little-endian (two's complement where signed). A value outside the range of the type is rejected or read back as itself, never silently turned into another value.",
  ["inputs"], "every value of each integer width, both signed and unsigned, every double bit pattern, and every integer-to-bytes conversion option",
  "Tests sample a handful of values; carry, sign and width errors hide in the other 2^32..2^256 values.",
  ["tl/1_tl_writer.ts", "tl/1_tl_reader.ts", "utilities/0_int.ts"], [["TLWriter.writeInt32/64/128/256/Double", "tl/1_tl_writer.ts"], ["TLReader.readInt32/64/128/256/Double", "tl/1_tl_reader.ts"], ["intToBytes, intFromBytes", "utilities/0_int.ts"]]);
p("C02", "TL byte strings and text are framed exactly and recovered exactly",
  "Writing a byte string or text of any encodable length produces the prescribed length prefix, the content, and zero padding to a four-byte boundary, and reading it back yields the identical content and leaves the reader at the next item. A byte string too long for the format is rejected, not truncated.",
  ["inputs"], "every content and every length in 0..2^24-1 including the 253/254 prefix switch and all four padding residues",
  "Tests use a few lengths; the prefix switch and padding residues are off-by-one territory.",
  ["tl/1_tl_writer.ts", "tl/1_tl_reader.ts", "utilities/0_text.ts"], [["TLWriter.writeBytes/writeString", "tl/1_tl_writer.ts"], ["TLReader.readBytes/readString", "tl/1_tl_reader.ts"]]);
p("C03", "TL objects of every schema type survive serialization and deserialization",
  "Every object of every constructor of the protocol, API and secret-chat schemas that the client accepts for sending is deserialized to an equal object, with each optional field present exactly when it was given and every flag word equal to the set of given fields. The bytes begin with the constructor's identifier, which is the one its declaration prescribes, and contain nothing after the last field. (Generic functions, which wrap another, are only written.)",
  ["inputs", "configurations"], "every constructor and function of the three schemas, every combination of present and absent optional fields, every field value within the stated bounds",
  "There are thousands of constructors and exponentially many optional-field combinations; tests use a few.",
  ["tl/1_tl_writer.ts", "tl/1_tl_reader.ts", "tl/0_utilities.ts", "tl/1_utilities.ts"], [["TLWriter.writeObject", "tl/1_tl_writer.ts"], ["TLReader.readType", "tl/1_tl_reader.ts"], ["analyzeOptionalParam", "tl/0_utilities.ts"]]);
p("C04", "Deserializing arbitrary bytes stays inside the input and fails cleanly",
  "Deserializing any byte sequence either yields a value whose every byte comes from the input, or fails with the library's error for malformed data; it never reads outside the input, never loops forever and never allocates memory out of proportion to the input. A failed deserialization of an unknown constructor reports that constructor.",
  ["inputs"], "every byte sequence up to the stated length, for every primitive reader, for vectors and for whole objects",
  "Tests feed well-formed data only; a peer controls these bytes.",
  ["tl/1_tl_reader.ts"], [["TLReader", "tl/1_tl_reader.ts"]]);
p("C05", "MTProto messages and containers are framed exactly",
  "A message or a container of messages that is serialized deserializes to the same message identifiers, sequence numbers and bodies, in the same order; each body's declared length equals its actual length.",
  ["inputs"], "every message identifier, sequence number and body within the stated bounds, and every container size within bounds",
  "Tests cover one container; lengths and ordering errors need other shapes.",
  ["tl/2_message.ts"], [["serializeMessage, deserializeMessage", "tl/2_message.ts"]]);
p("C06", "Transport framing delivers every packet intact, in order, under any chunking",
  "For each transport framing, the sequence of packets a receiver gets equals the sequence the sender sent, for every packet length the protocol allows, both with and without stream obfuscation, and however the connection splits the byte stream. A four-byte transport error is reported as an error carrying its code. A packet counts as sent only once it is written, and sending it fails when writing it does.",
  ["inputs", "schedules"], "every packet content and length within bounds, every sequence of packets within bounds, both framings, with and without obfuscation",
  "Tests do not exercise the framings against each other or at the length-prefix switch.",
  ["transport/1_transport_abridged.ts", "transport/1_transport_intermediate.ts", "transport/0_transport.ts"], [["TransportAbridged", "transport/1_transport_abridged.ts"], ["TransportIntermediate", "transport/1_transport_intermediate.ts"]]);
p("C07", "The obfuscation handshake never collides and announces the right protocol",
  "The first 64 bytes of an obfuscated connection never start with a sequence reserved by another protocol, carry the chosen framing's tag and the target datacenter in encrypted form, and give both directions the keys the server derives from them. With a proxy secret, the keys are additionally bound to that secret.",
  ["inputs", "configurations"], "every 64-byte random seed, both framings, every datacenter, with and without a proxy secret",
  "The reserved prefixes are hit with probability about 2^-8 to 2^-32, so a sampled test almost never sees them.",
  ["transport/0_obfuscation.ts"], [["getObfuscationParameters", "transport/0_obfuscation.ts"]]);
p("C08", "Stream encryption is independent of how the stream is cut",
  "Encrypting or decrypting a stream in counter mode gives the same bytes however the stream is divided into calls, and decrypting what was encrypted restores the stream. Counter blocks are consecutive, including across every carry.",
  ["inputs", "schedules"], "every way to cut a stream of up to the stated length, every key, every initial counter",
  "Tests do not vary chunk boundaries or reach counter carries.",
  ["utilities/1_crypto.ts"], [["CTR", "utilities/1_crypto.ts"]]);
p("C09", "Outgoing message identifiers increase and sequence numbers are well formed",
  "Within a session every outgoing message identifier is a multiple of four and strictly greater than all earlier ones, whatever the clock does, and reflects the server time. The sequence number of each message is twice the number of earlier content-related messages, plus one if the message itself is content-related.",
  ["inputs", "histories"], "every history of clock readings (including standing still and going backwards), clock offsets, and content-related or service messages, up to the stated length",
  "Tests do not exercise clock regressions or same-millisecond bursts.",
  ["session/0_session_state.ts", "session/2_session_encrypted.ts"], [["SessionState.nextMessageId, nextSeqNo", "session/0_session_state.ts"]]);
p("C10", "The encrypted session accepts only authentic, well-formed server messages",
  "An incoming packet is delivered only if its key identifier is the session's, its message key matches the decrypted content, its session identifier is the current one, its identifier has server parity, and its length and padding are within the protocol's limits. Any other packet is dropped without being delivered, and does not stop the session from receiving later packets.",
  ["inputs", "histories"], "every packet of the stated sizes, every single- or multi-byte corruption of a genuine packet",
  "Tests never feed forged packets.",
  ["session/2_session_encrypted.ts", "session/1_session.ts"], [["SessionEncrypted receive loop", "session/2_session_encrypted.ts"]]);
p("C11", "Encrypted messages follow the prescribed wire format",
  "Every outgoing encrypted packet consists of the key identifier, the message key and a ciphertext that decrypts to salt, session identifier, message identifier, sequence number, length, body and padding of 12 to 1024 bytes, with total length a multiple of 16, where the message key is the middle of the hash of the right key part and the plaintext. The peer following the specification recovers exactly the sent message. The message that binds a temporary key to the permanent one is encrypted under the permanent key, and names the keys, the session and the message it is actually sent with.",
  ["inputs"], "every body length and content within bounds, every key, salt and random padding",
  "Tests check one or two fixed vectors at most.",
  ["session/2_session_encrypted.ts", "utilities/1_crypto.ts", "client/2_client_encrypted.ts"], [["SessionEncrypted #encryptMessage", "session/2_session_encrypted.ts"], ["ClientEncrypted #bindTemporaryAuthKey", "client/2_client_encrypted.ts"]]);
p("C12", "Every request settles exactly once with its own reply",
  "Each request sent through a session settles exactly once: with the result or error the server sent for that request's identifier, or with a failure when the connection is lost or the session is stopped; a reply for one request never settles another. Requests the server reports as rejected for wrong salt or time are resent unchanged with a new identifier, and every content-related message received is acknowledged.",
  ["histories", "schedules", "fault_sequences"], "every order of replies, errors, service notifications, containers and disconnections within bounds",
  "Tests have no session-level histories.",
  ["session/2_session_encrypted.ts", "client/2_client_encrypted.ts"], [["message handling and resend", "session/2_session_encrypted.ts"], ["ClientEncrypted sent requests", "client/2_client_encrypted.ts"]]);
p("C13", "The key exchange accepts only values bound to its own nonces",
  "Creating an authorization key succeeds only if every server answer carries the client's nonces and the answer's integrity and group parameters check out; any altered answer makes it fail rather than yield a key. When it succeeds, the key and the first salt are the ones the specification prescribes for the exchanged values.",
  ["inputs", "fault_sequences"], "every alteration of each server answer within bounds, every nonce and random value",
  "Tests have no key exchange with an adversarial server.",
  ["client/1_client_plain.ts"], [["ClientPlain.createAuthKey", "client/1_client_plain.ts"]]);
p("C14", "Two-step verification computes the prescribed proof and refuses bad parameters",
  "For every password and server parameters the answer sent equals the one the secure-remote-password specification prescribes, independent of how numbers happen to be padded. Unsafe group parameters or an out-of-range server value are refused.",
  ["inputs"], "every salt, server value and random exponent within bounds, including those with leading zero bytes",
  "Leading-zero cases occur with probability 1/256 and fixed vectors never show them.",
  ["client/0_password.ts"], [["checkPassword", "client/0_password.ts"]]);
p("C15", "Updates are applied in order, each exactly once",
  "For each update sequence (common, secret, per channel, and the global one) the client hands an update to the application exactly once and only when the local counter equals the update's predecessor value; duplicates are dropped and the counter ends at the value of the last applied update.",
  ["inputs", "histories"], "every arrival order, duplication and counter values of updates within bounds",
  "Tests have no update histories.",
  ["client/2_update_manager.ts"], [["UpdateManager", "client/2_update_manager.ts"]]);
p("C16", "A gap in the update sequence is always detected and recovered",
  "Whenever an update arrives whose predecessor has not been applied, the client requests the difference from its stored counters before applying anything later of that sequence, applies what the difference returns in order, and continues from the state the difference reports, slice by slice.",
  ["inputs", "histories", "fault_sequences"], "every gap position and size, every sequence of difference answers within bounds",
  "Tests have no difference handling.",
  ["client/2_update_manager.ts"], [["#recoverUpdateGap, #recoverChannelUpdateGap", "client/2_update_manager.ts"]]);
p("C17", "With guaranteed delivery no accepted update is lost across a crash",
  "When guaranteed update delivery is on, every update accepted before a crash is delivered to the handler after a restart unless its handling had completed, in the original order; once an update's handling has completed and it has been removed from the storage, it is not delivered again.",
  ["crash_points", "histories"], "every crash point in the handling of every sequence of updates within bounds",
  "Tests do not crash and restart the client.",
  ["client/2_update_manager.ts", "client/0_storage_operations.ts"], [["UpdateManager handle queue", "client/2_update_manager.ts"]]);
p("C18", "Storage keys and values are encoded reversibly and order-preservingly",
  "Every storable key and value encodes to text that decodes to an equal value, distinct keys encode to distinct texts, and the comparison of keys is a total order consistent with equality, so that prefix and range queries select exactly the keys they describe.",
  ["inputs"], "every key and value built from strings, numbers, big integers, booleans, dates, byte arrays, arrays and objects within bounds",
  "Tests encode a fixed list of values.",
  ["storage/1_utilities.ts"], [["toString, fromString, fixKey, restoreKey, compareKeys", "storage/1_utilities.ts"]]);
p("C19", "All storage back ends behave as one ordered map",
  "After any sequence of set, delete, increment, branch and query operations, every storage back end answers get and ranged, prefixed, limited and reversed queries exactly as an ordered map would, and branches or differently named storages never see each other's entries.",
  ["histories", "configurations"], "every operation sequence within bounds with symbolic keys and values, for the memory, web-storage, IndexedDB and Deno KV back ends; increments started together all count",
  "Tests run one fixed script.",
  ["storage/2_storage_memory.ts", "storage/2_storage_local_storage.ts", "storage/2_storage_session_storage.ts", "storage/2_storage_indexed_db.ts", "storage/1_storage_deno_kv.ts", "storage/0_storage.ts"], [["StorageMemory", "storage/2_storage_memory.ts"], ["StorageLocalStorage", "storage/2_storage_local_storage.ts"], ["StorageIndexedDB", "storage/2_storage_indexed_db.ts"]]);
p("C20", "Cached client state always reads back what was last written",
  "A value written through the client's storage layer reads back as the last written value at once, reaches the storage by the next flush, and after a restart is either the flushed or an earlier written value, never a mixture; deletions stay deleted.",
  ["histories", "crash_points"], "every sequence of writes, deletions, reads and flushes within bounds, and every crash point",
  "Tests cover one write and one read.",
  ["client/0_storage_operations.ts"], [["StorageOperations, StorageMap, StorageValue", "client/0_storage_operations.ts"]]);
p("C21", "File identifiers encode every file reference reversibly",
  "Every file identifier the client produces decodes to the same type, location, access data and source it was made from, and two files have the same unique identifier exactly when they denote the same file.",
  ["inputs"], "every file type, photo source and field value within bounds",
  "Tests decode a few fixed identifiers.",
  ["types/_file_id.ts", "utilities/0_rle.ts", "utilities/1_base64.ts"], [["serializeFileId, deserializeFileId, toUniqueFileId", "types/_file_id.ts"]]);
p("C22", "An uploaded file is sent completely, once, in valid parts",
  "For every file and chunk size the parts sent to the server, ordered by part number, concatenate to exactly the file's content, part numbers run from zero without gaps, all parts but the last have the same valid size, and the declared part count and the small-or-large upload form match.",
  ["inputs", "schedules"], "every content length and source chunking within bounds, every chunk size option, failures and retries of parts",
  "Tests use a few sizes.",
  ["client/2_file_manager.ts", "utilities/0_part_stream.ts"], [["FileManager.upload", "client/2_file_manager.ts"], ["PartStream", "utilities/0_part_stream.ts"]]);
p("C23", "A downloaded file equals the requested range of the remote file",
  "For every file size, offset and chunk size, the chunks a download yields concatenate to exactly the remote file's bytes from the offset to the end, only ranges that start at and span multiples of 1 KB (at most 1 MB) are requested, and interruption by rate limits or cancellation never duplicates or drops bytes.",
  ["inputs", "fault_sequences"], "every file length, offset and chunk size within bounds",
  "Tests have no download.",
  ["client/2_file_manager.ts"], [["FileManager.downloadInner", "client/2_file_manager.ts"]]);
p("C24", "Chat identifiers map one-to-one to users, groups and channels",
  "Every valid user, basic group, channel or secret-chat identifier maps to a distinct chat identifier, and mapping back yields the same kind and identifier; a chat identifier is never attributed to two kinds.",
  ["inputs"], "every integer identifier in the valid ranges",
  "Boundary identifiers between the ranges are not tested.",
  ["tl/2_telegram.ts", "tl/0_utilities.ts", "client/0_utilities.ts"], [["getChatIdPeerType, peerToChatId", "tl/2_telegram.ts"]]);
p("C25", "Markdown parsing produces text and formatting that fit each other",
  "For every Markdown input the parser either reports an error or yields text and formatting ranges that lie within the text, start before they end, never partially overlap except where permitted, and mark exactly the delimited parts; escaped characters appear literally and input without markup is returned unchanged.",
  ["inputs"], "every text up to the stated length over an alphabet containing every special character",
  "Tests parse fixed texts; nesting and escapes explode combinatorially.",
  ["client/0_markdown.ts"], [["parseMarkdown", "client/0_markdown.ts"]]);
p("C26", "HTML parsing produces text and formatting that fit each other",
  "For every HTML input the parser either reports an error or yields text and formatting ranges that lie within the text and mark exactly the content of the corresponding elements; character references are decoded exactly once and input without markup is returned unchanged, apart from white space around it.",
  ["inputs"], "every text up to the stated length over an alphabet containing the syntax characters and supported tags",
  "Tests parse fixed texts.",
  ["client/0_html.ts"], [["parseHtml", "client/0_html.ts"]]);
p("C27", "Formatting and media types convert between API and protocol without loss",
  "Every text formatting range, reply-markup button, reaction and similar value that the client can send converts to the protocol form and back to an equal value; offsets and lengths are never altered.",
  ["inputs", "configurations"], "every kind of formatting entity, button and reaction with symbolic field values",
  "Tests do not convert back and forth.",
  ["types/2_message_entity.ts", "types/1_inline_keyboard_button.ts", "types/0_reaction.ts", "types/0_secret_message_entity.ts"], [["messageEntityToTlObject, constructMessageEntity", "types/2_message_entity.ts"]]);
p("C28", "Locks and queues serialize tasks without losing any",
  "The mutual-exclusion lock admits one holder at a time in request order and is always passed on when released, including when the holder fails; the task queue runs every task exactly once, in order, one at a time, and a failing task does not stop the others. An aborted background loop stops and runs nothing afterwards.",
  ["schedules", "fault_sequences"], "every interleaving and failure pattern of up to the stated number of tasks",
  "Tests run a few schedules.",
  ["utilities/0_mutex.ts", "utilities/2_queue.ts", "client/0_abortable_loop.ts"], [["Mutex", "utilities/0_mutex.ts"], ["Queue", "utilities/2_queue.ts"], ["AbortableLoop", "client/0_abortable_loop.ts"]]);
p("C29", "Update handlers run in registration order and only when their filter matches",
  "An update passes through the registered handlers in registration order; a handler runs exactly when its filter, command or branch condition holds; later handlers run only if the earlier ones pass control on; and no handler runs twice for one update. The context given to handlers and conditions shows the update's own message, chat and sender.",
  ["inputs", "configurations"], "every composition of handlers, filters, branches and commands up to the stated depth, with symbolic update contents and handler decisions",
  "Tests use two or three fixed compositions.",
  ["client/5_composer.ts", "client/4_context.ts", "client/3_filters.ts"], [["Composer", "client/5_composer.ts"], ["filters", "client/3_filters.ts"]]);
p("C30", "Connections deliver bytes exactly once, in order, under any chunking",
  "Whatever pieces the network delivers and whatever sizes are read, the bytes read from a connection are the bytes received, in order, without loss or repetition; with the disguised-TLS transport this also holds for every record split, and everything written is carried in well-formed records within the size limit.",
  ["inputs", "schedules"], "every sequence of arrivals and reads within bounds, every write length within bounds",
  "Tests use a few fixed sequences.",
  ["connection/0_byte_queue.ts", "connection/1_connection_tcp.ts", "connection/1_connection_tls.ts"], [["ByteQueue", "connection/0_byte_queue.ts"], ["ConnectionTLS", "connection/1_connection_tls.ts"]]);
p("C31", "Proxy and server addresses are encoded exactly",
  "Every textual IPv4 and IPv6 address is converted to its prescribed bytes; the SOCKS5 handshake sends well-formed requests for every address, port, user name and password, succeeds on every answer that confirms the connection, however it is divided, and fails, closing the connection, on every refusing or malformed answer; what follows the handshake is delivered from its first byte on.",
  ["inputs"], "every address within bounds, every port, credentials within bounds, every proxy answer",
  "Tests have no proxy.",
  ["utilities/0_ip.ts", "connection/1_connection_socks5.ts", "connection/1_connection_socks5.node.ts"], [["ipv4ToBytes and ipv6ToBytes", "utilities/0_ip.ts"], ["ConnectionSocks5.open", "connection/1_connection_socks5.ts"], ["ConnectionSocks5.open (Node.js)", "connection/1_connection_socks5.node.ts"]]);
p("C32", "Secret-chat messages are authentic and recover exactly",
  "A secret-chat message encrypted by one side decrypts on the other side to the same content, and an encrypted message that was altered, uses another key, or is a reflection of the receiver's own message is rejected. Both ends of an accepted chat derive the same key; a chat with an unsafe group, an unusable power or another fingerprint is refused or ends.",
  ["inputs"], "every content within bounds, both roles, every alteration within bounds, every exponent, power and fingerprint",
  "Tests have no secret chats.",
  ["client/3_secret_chat_manager.ts"], [["SecretChatManager encryption and decryption", "client/3_secret_chat_manager.ts"]]);
p("C33", "Secret-chat messages are delivered in order, each exactly once",
  "Within a secret chat, messages are delivered in the sender's order exactly once; a gap triggers a resend request for exactly the missing range, later messages wait, duplicates are ignored, and sequence numbers no honest peer could produce end the chat. This also holds across restarts, changes of the chat's key and messages that fail to be sent: what the other side sends under the old or the new key is delivered, and the two sides end up with the same key.",
  ["inputs", "histories"], "every arrival order, loss and duplication of messages with symbolic sequence numbers, every step of a key change lost, late or failing, within bounds",
  "Tests have no secret chats.",
  ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts"], [["gap checking", "client/3_secret_chat_manager.ts"]]);
p("C34", "Number theory used by the key exchange is exact",
  "Modular exponentiation, greatest common divisor and factorization give the mathematically exact result for every input in their domain; factorization returns the two factors in ascending order.",
  ["inputs"], "every input within the stated widths",
  "Tests use a few numbers.",
  ["utilities/1_math.ts", "utilities/0_int.ts"], [["modExp, gcd, factorize", "utilities/1_math.ts"]]);
p("C35", "Exported sessions restore the same account",
  "Exporting the authorization and importing the text into another client restores the same datacenter, key, application, kind of account and account identifier, also after they are stored and read again; a text that breaks off early is refused and changes nothing; a client that is not authorized exports nothing.",
  ["inputs"], "every account and application identifier and datacenter, keys within bounds, every cut of the text within bounds",
  "Tests do not export and import.",
  ["client/0_storage_operations.ts", "utilities/1_base64.ts"], [["exportAuthString, importAuthString", "client/0_storage_operations.ts"]]);
p("C36", "Text encodings used in identifiers are reversible",
  "URL-safe base64 and the zero-run-length encoding decode to exactly what was encoded, for every input.",
  ["inputs"], "every byte sequence up to the stated length",
  "Tests encode a few strings.",
  ["utilities/0_rle.ts", "utilities/1_base64.ts"], [["rleEncode, rleDecode", "utilities/0_rle.ts"], ["base64Encode, base64Decode", "utilities/1_base64.ts"]]);
module.exports = P;
