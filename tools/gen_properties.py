#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
M='goost/magma/'; K='goost/kuznyechik/'; G='goost/gost89/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NT="The only test that runs here computes one kuznyechik MAC; "

p("C01","Magma block encryption is the GOST 28147-89 / 34.12 cipher for every input",
 "Encrypting a 64-bit block gives exactly the 32-round GOST 28147-89 / GOST R 34.12-2015 (Magma) ciphertext, for every 256-bit key, every substitution table and every block. The result is the same whether the key is given as hex text, as eight native words or by a user-supplied key-data object, whether the table is the standard one, nibble rows or the collapsed 64-byte form, and whether the block object or the 64-bit-integer interface is used. Repeating the computation with the same objects gives the same answer every time.",
 ["inputs","configurations"],"every key, substitution table, block value, key/table/block representation, and number of repetitions with the same key object",
 NT+"the unbuilt suite has seven fixed block vectors under two keys and two tables. The input space is 2^(256+64) times the tables.",
 [M+f for f in ("BlkEncrypted.cpp","BlkForwarded.cpp","BlkBackwarded.cpp","BlkSwapped.cpp","EncryptionBase.cpp","LazyKey.cpp","KeyCachedData.cpp","KeyDataNative.cpp","KeyDataString.cpp","BlkRaw.cpp","SboxR3412.cpp")],
 [("3 x forward, 1 x backward, swap",M+"BlkEncrypted.cpp"),("32 explicit rounds",M+"EncryptionBase.cpp:transform"),("round function s-box(key[i]+v)",M+"LazyKey.cpp:transform")],
 ["magma::BlkEncrypted::value","magma::EncryptionBase::transform"])
p("C02","Magma block decryption is the exact inverse of block encryption",
 "For every key, substitution table and 64-bit block, decrypting an encrypted block returns the original block and encrypting a decrypted block returns the original block. Decryption agrees with the GOST R 34.12-2015 decryption of the same block, for every way of supplying the key and the table. Eight forward rounds followed by a half swap, eight backward rounds and another half swap also restore the block.",
 ["inputs","configurations"],"every key, table (bijective or not), block value and key/table representation",
 NT+"the unbuilt suite decrypts one block of the standard.",
 [M+f for f in ("BlkDecrypted.cpp","BlkEncrypted.cpp","BlkForwarded.cpp","BlkBackwarded.cpp","BlkSwapped.cpp")],
 [("1 x forward, 3 x backward, swap",M+"BlkDecrypted.cpp"),("Feistel rounds with reversed key order",M+"BlkBackwarded.cpp")],
 ["magma::BlkDecrypted::value","magma::BlkEncrypted::value","magma::BlkForwarded::value","magma::BlkBackwarded::value"])
p("C03","Every form of a Magma substitution table substitutes the same way",
 "A table given as eight rows of sixteen nibbles replaces nibble i of a 32-bit word by row i's entry for it; the same table collapsed into 64 bytes (four columns, two nibbles per byte) gives the same result for every word, and so does a table assembled from four byte-lookup objects, which are asked for byte values (0..255) only. The rotating decorator yields that result rotated left by exactly 11 bits, and the built-in table is the GOST R 34.12-2015 (id-tc26-gost-28147-param-Z) one.",
 ["inputs","configurations"],"every 32-bit word and every table of nibbles, bijective or not",
 NT+"the unbuilt suite checks eight words through one table; the collapsed form is never compared with the nibble form.",
 [M+f for f in ("SboxNibble.cpp","SboxByte.cpp","SboxByte64Tab.cpp","SboxTwisted.cpp","SboxR3412.cpp")],
 [("per-nibble lookup",M+"SboxNibble.cpp"),("per-byte lookup in the collapsed table",M+"SboxByte64Tab.cpp"),("rotation by 11",M+"SboxTwisted.cpp")],
 ["magma::Sbox::transform"])
p("C04","Key text means exactly its 256-bit key; malformed key text is refused",
 "A key string of 64 hexadecimal digits (either case) denotes exactly the big-endian 256-bit number it spells, for both ciphers: Magma key words K1..K8 from left to right, Kuznyechik halves left then right. A string of any other length, or one containing any character that is not a hexadecimal digit, is refused with an exception no later than the first use of the key, whichever of its words or halves that use needs, and never silently used as some other key. Asking the Magma key text for a word outside 0..7 is refused the same way.",
 ["inputs"],"every string of any length and content, every word index",
 NT+"the unbuilt suite parses one well-formed key per cipher and no malformed one.",
 [M+"KeyDataString.cpp",K+"KeyDataString.cpp",K+"BlkString.cpp",K+"Key.cpp",M+"LazyKey.cpp"],
 [("length and digit checks, hex parsing",M+"KeyDataString.cpp:key"),("length and digit checks, two halves",K+"KeyDataString.cpp")],
 ["magma::KeyDataString::key","magma::LazyKey::transform","kuznyechik::KeyDataString::low/high","kuznyechik::Key"])
p("C05","Kuznyechik encryption and key schedule conform for every key and block",
 "Encrypting a 128-bit block gives exactly the GOST R 34.12-2015 Kuznyechik ciphertext for every 256-bit key and every block, whether the key is hex text or a user-supplied key-data object. The round keys derived from any two starting halves and any range of iteration constants are those of the standard's key schedule. Repeating the computation with the same key object gives the same answer.",
 ["inputs","configurations"],"every key, block, iteration-constant range, and repetition with the same key object",
 NT+"it encrypts five blocks under one key, and the unbuilt suite adds four blocks and one key schedule of the same key.",
 [K+f for f in ("Key.cpp","BlkEncrypted.cpp","BlkIterKey.cpp","BlkL.cpp","BlkR.cpp","BlkS.cpp","BlkXored.cpp","BlkCached.cpp","BlkString.cpp","KeyDataString.cpp")],
 [("nine LSX rounds and a final X",K+"Key.cpp:encrypt"),("Feistel key schedule",K+"BlkIterKey.cpp:generate"),("GF(2^8) linear step",K+"BlkR.cpp:gmul")],
 ["kuznyechik::Key::encrypt","kuznyechik::BlkEncrypted::value","kuznyechik::BlkIterKey::value"])
p("C06","Block values and transformations compose as exact integer/GF functions",
 "A block built from words, a pair, another block, raw memory, bytes or up to 16 (Magma) / 32 (Kuznyechik) hex digits has exactly that value, shorter text being extended with leading zeros. Xor of any number of blocks, half swap, left shift by any number of bits less than the block, 128-bit increment with carry and wrap-around, and the S, R and L steps of Kuznyechik each equal their definition as integer or GF(2^8) functions. Any nesting of these transformations and of encryption evaluates to the composition of those functions.",
 ["inputs","programs"],"every block value, shift distance less than the block's width, well-formed hex text, and every nested expression of transformations",
 NT+"the unbuilt suite applies each transformation to one to four values and nests none of them.",
 [K+f for f in ("BlkRaw.cpp","BlkString.cpp","BlkXored.cpp","BlkXored.h","BlkShifted.cpp","BlkIncremented.cpp","BlkS.cpp","BlkR.cpp","BlkL.cpp")]+[M+f for f in ("BlkRaw.cpp","BlkString.cpp","BlkXored.cpp","BlkXored.h","BlkShifted.cpp","BlkSwapped.cpp")],
 [("carry from the low half",K+"BlkIncremented.cpp"),("carry between halves",K+"BlkShifted.cpp, "+M+"BlkShifted.cpp"),("variadic xor",K+"BlkXored.h, "+M+"BlkXored.h")],
 ["Block::value of every block class of both ciphers"])
p("C07","ECB streams encrypt and decrypt block-wise, and refuse partial blocks",
 "Writing data of a whole number of 8-byte blocks to the ECB sink, in any block-aligned pieces, delivers to the underlying sink exactly the concatenation of the encrypted blocks; reading the ECB source with any sizes of at least one block returns exactly the decrypted blocks, in order, then nothing, and the source undoes the sink. This holds with a key object and with a key container (32-byte big-endian key words, 64-byte collapsed table). A write that is not a whole number of blocks, a read of less than a block, or ciphertext that ends inside a block raises an exception instead of producing data.",
 ["inputs","histories"],"every key, table, data length and content, and every split into writes and sequence of read sizes",
 NT+"the unbuilt suite encrypts and decrypts four blocks in one call each.",
 [M+"ECBSink.cpp",M+"ECBSource.cpp",M+"EncryptionBase.cpp",M+"BlkDecrypted.cpp",M+"Container.h",G+"ECBSink.h",G+"ECBSource.h"],
 [("8-byte accumulation, exception on remainder",M+"ECBSink.cpp:write"),("block read, exception on short block",M+"ECBSource.cpp:read"),("container to key",M+"ECBSource.cpp:makeKey")],
 ["magma::ECBSink","magma::ECBSource"])
CFBW="splits the data into write calls (empty ones included)"
p("C08","Magma CFB encryption conforms for every length and every split of writes",
 "Writing any byte sequence to the Magma CFB sink and finalizing delivers to the underlying sink, in order and without loss, exactly the GOST R 34.13-2015 CFB ciphertext (two-block register, full-block feedback) of that sequence, of the same length. The ciphertext does not depend on how the caller splits the data into write calls, empty ones included. The ciphertext of a prefix of the data is the same-length prefix of the ciphertext, so a trailing partial block is encrypted with the leading bytes of the keystream block.",
 ["inputs","histories"],"every key, register value, data length and content, and split into writes",
 NT+"the unbuilt suite encrypts four whole blocks in one write; no partial tail and no split.",
 [M+"CFBSink.cpp",M+"CFBSink.h"],
 [("8-byte accumulation and register shift",M+"CFBSink.cpp:write"),("tail encryption",M+"CFBSink.cpp:finalize")],
 ["magma::CFBSink over a recording Sink"],
 [("register","last two ciphertext blocks","ivl, ivr"),("pending plaintext","bytes not yet forming a block","plain")])
p("C09","Magma CFB decryption recovers the plaintext for every length and read sizes",
 "Reading a Magma CFB source with any sequence of sizes returns exactly the GOST R 34.13-2015 CFB decryption of the underlying ciphertext, never more bytes than asked for, every byte once and in order, and nothing after the end. What the CFB sink produced for any plaintext, of any length, decrypts to that plaintext. Every requested byte that exists is returned.",
 ["inputs","histories"],"every key, register value, ciphertext length and content, and sequence of read sizes (0 to unlimited)",
 NT+"the unbuilt suite decrypts four whole blocks in one unlimited read.",
 [M+"CFBSource.cpp",M+"CFBSource.h"],
 [("buffered plaintext and register update",M+"CFBSource.cpp:read")],
 ["magma::CFBSource over an in-memory Source"],
 [("register","last two ciphertext blocks","ivl, ivr"),("buffer","decrypted bytes not yet handed out","plain")])
p("C10","GOST 28147-89 CFB encryption conforms for every length and split of writes",
 "Writing any byte sequence to the GOST 28147-89 CFB sink and finalizing delivers to the underlying sink, in order and without loss, exactly the GOST 28147-89 cipher-feedback ciphertext of that sequence, of the same length. The ciphertext does not depend on how the caller splits the data into write calls, empty ones included. The ciphertext of a prefix of the data is the same-length prefix of the ciphertext.",
 ["inputs","histories"],"every key, table, synchronisation value, data length and content, and split into writes",
 NT+"the unbuilt suite encrypts two whole blocks in one write.",
 [G+"CFBSink.cpp",G+"CFBSink.h"],
 [("8-byte accumulation and feedback",G+"CFBSink.cpp:write"),("tail encryption",G+"CFBSink.cpp:finalize")],
 ["gost89::CFBSink over a recording Sink"])
p("C11","GOST 28147-89 CFB decryption recovers the plaintext for every length and reads",
 "Reading a GOST 28147-89 CFB source with any sequence of sizes returns exactly the cipher-feedback decryption of the underlying ciphertext, never more bytes than asked for, every byte once and in order, and nothing after the end. What the GOST 28147-89 CFB sink produced for any plaintext, of any length, decrypts to that plaintext. Every requested byte that exists is returned.",
 ["inputs","histories"],"every key, table, synchronisation value, ciphertext length and content, and sequence of read sizes",
 NT+"the unbuilt suite decrypts two whole blocks in one unlimited read.",
 [G+"CFBSource.cpp",G+"CFBSource.h"],
 [("buffered plaintext and feedback update",G+"CFBSource.cpp:read")],
 ["gost89::CFBSource over an in-memory Source"])
p("C12","Kuznyechik CTR stream conforms, inverts itself and keeps the stream's shape",
 "Block n of a CTR-encrypted stream equals block n of the plain stream xored with the encryption of the 128-bit counter (IV in the high half, n in the low half). A stream over memory yields the given words in order, two per block, and every iterator reports its block's size in bytes, whether it is the last one, and its successor (none after the last); the encrypted stream has the same number of blocks with the same sizes and end, also when the stream is empty or ends in half a block. Encrypting twice with the same key and IV restores the stream, and iterators keep working after the caller drops the stream and in any order of use.",
 ["inputs","histories"],"every key, IV, word sequence of any length, and order in which iterators are created, re-read and advanced",
 NT+"the unbuilt suite reads the four blocks of one stream.",
 [K+"StCTREncrypted.cpp",K+"StMemory.cpp",K+"BlkIncremented.cpp",K+"BlkXored.cpp",K+"BlkEncrypted.cpp"],
 [("counter increment per step",K+"StCTREncrypted.cpp:ItCTREncrypted::next"),("offset-based iteration",K+"StMemory.cpp:next_iter")],
 ["kuznyechik::StCTREncrypted, StMemory, Iterator"])
p("C13","Kuznyechik MAC is the GOST R 34.13-2015 MAC for every message",
 "For every key and every message of whole 128-bit blocks the MAC equals the GOST R 34.13-2015 (OMAC) value of all 128 bits. A message whose last block is incomplete is chained the same way, takes the second subkey for the last block, and never has the MAC of a different message by construction; an empty message gets a MAC or an exception. The MAC depends only on the message and the key: not on the kind of stream that supplies the blocks (memory, CTR, the user's own), nor on what an incomplete last block has beyond its reported size.",
 ["inputs"],"every key, number and content of blocks, incomplete last block, and stream implementation",
 NT+"that MAC (four whole blocks, one key) is its single vector; the incomplete-block branch and single-block messages are never run.",
 [K+"Imit.cpp",K+"StMemory.cpp",K+"BlkShifted.cpp"],
 [("chaining and subkey choice",K+"Imit.cpp:value"),("subkey doubling",K+"Imit.cpp:BlkXoredIfHighBit")],
 ["kuznyechik::Imit::value"])
p("C14","Magma MAC is the GOST R 34.13-2015 MAC for every message",
 "For every key, substitution table and message of whole 64-bit blocks the MAC equals the GOST R 34.13-2015 (OMAC) value of all 64 bits. A message whose last block is incomplete (or that is empty) is chained the same way, with the padded last block masked by the second subkey. Different messages, in particular one that only extends another by zero bytes, never have equal MACs by construction.",
 ["inputs"],"every key, table, message length (0 upwards) and content",
 NT+"the unbuilt suite has one message of four whole blocks.",
 [M+"Imit.cpp",M+"BlkShifted.cpp"],
 [("chaining and subkey choice",M+"Imit.cpp:Imit::value"),("subkey doubling",M+"Imit.cpp:BlkImitShifted")],
 ["magma::Imit::value over an in-memory Source"])
p("C15","GOST 28147-89 MAC (imitovstavka) conforms for every message",
 "For every key, substitution table and byte sequence the GOST 28147-89 MAC equals the standard's: the data zero-padded to whole blocks and to at least two blocks, chained through sixteen rounds of the cipher, with all 64 bits returned in byte order. The single-block sixteen-round transformation equals the first sixteen rounds of encryption without the final swap. Computing it twice gives the same bytes.",
 ["inputs"],"every key, table, data length (0 upwards) and content, and block value",
 "No test, built or not, touches this MAC.",
 [G+"DataImit.cpp",G+"ImitedBlock.cpp",M+"BlkForwarded.cpp"],
 [("zero padding and chaining",G+"DataImit.cpp:value"),("two forward passes",G+"ImitedBlock.cpp:value")],
 ["gost89::DataImit::value","gost89::ImitedBlock::value"])
p("C16","Library objects are immutable: reuse, branching and other objects change nothing",
 "No operation on a block, key, stream, iterator, sink or source changes what that object or any other object will answer. Writing to or reading from the same sink or source object again, after and between any other operations, gives the same result as the first time; two continuations branched from one object do not influence each other; and objects with different keys, tables or initial values used side by side, or after others were destroyed, never affect each other's results.",
 ["histories"],"every interleaving of operations on any number of simultaneously live keys, blocks, streams, sinks and sources, including branching from earlier objects and destroying objects",
 NT+"no test reuses an object after continuing from it, branches, or uses two keys side by side.",
 ["goost/Sink.h","goost/Source.h",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSink.cpp",M+"ECBSource.cpp",M+"KeyCachedData.cpp",K+"BlkCached.cpp",K+"Key.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",K+"StCTREncrypted.cpp",K+"StMemory.cpp"],
 [("const members, state passed to a new object","README.md principles; write/read return a new object"),("per-object caches",M+"KeyCachedData.h, "+K+"BlkCached.cpp")],
 ["all public classes"])
p("C17","No input makes the library touch memory outside its buffers",
 "Whatever the data length, tail, write split, read sizes, number of words, key text or block text (valid or malformed), number of key words, table bytes or block bytes given, and however a source or sink delivers, no operation reads or writes outside the buffers it was given or allocated, uses freed or uninitialised memory, or shifts by an out-of-range distance. Each operation either completes or throws a standard exception; it never crashes or hangs.",
 ["inputs","histories"],"every public operation with every input length, alignment and content, including malformed text, wrong-sized keys and tables, sources that under- or over-deliver, and truncated ciphertext",
 NT+"it runs without sanitizers on whole blocks only, where overruns of a few bytes go unnoticed.",
 [M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSource.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",G+"DataImit.cpp",K+"StMemory.cpp",M+"BlkRaw.cpp",K+"BlkRaw.cpp",K+"BlkR.cpp",M+"BlkShifted.cpp",M+"Imit.cpp"],
 [("bounds by block size and remaining length","finalize/read/next_iter of the stream classes")],
 ["all public classes, under AddressSanitizer / UBSan shift and bounds checks"])
p("C18","Message length is limited by memory, not by the call stack",
 "MACs, CTR streams, CFB and ECB streams of long messages (tens of thousands of blocks) complete with the correct result on an ordinary thread stack. Stack use does not grow with the length of the message, neither while computing nor while destroying objects. The result for a long message equals the standard's, as it does for a short one.",
 ["inputs","configurations"],"every message length up to what memory allows, in every mode, on threads with an ordinary stack",
 NT+"the longest message in any test is four blocks.",
 [K+"Imit.cpp",M+"Imit.cpp",K+"StCTREncrypted.cpp",M+"CFBSink.cpp",M+"CFBSource.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",M+"ECBSink.cpp",M+"ECBSource.cpp",G+"DataImit.cpp"],
 [("intermediate values evaluated per step",K+"Imit.cpp, "+M+"Imit.cpp, "+K+"StCTREncrypted.cpp")],
 ["MAC values, CTR iterators, sinks and sources on a thread with a 1 MiB stack"])
p("C19","One key or block object may be used from several threads at once",
 "When several threads use the same key, cached key data, cached block, stream, source or sink object at the same time, every thread gets the result a single thread would get, under every interleaving, including the very first uses. There is no data race, and an evaluation failing in one thread does not spoil the results of the others.",
 ["schedules"],"every interleaving of concurrent first and later uses of shared objects by two or more threads",
 "All tests are single-threaded.",
 [M+"KeyCachedData.cpp",M+"KeyCachedData.h",K+"BlkCached.cpp",M+"LazyKey.cpp",K+"Key.cpp"],
 [("synchronised one-time evaluation",M+"KeyCachedData.cpp:key, "+K+"BlkCached.cpp:value"),("immutability of everything else","const members")],
 ["results of concurrent operations; ThreadSanitizer"],
 [("cached flag and words","lazily parsed key words",M+"KeyCachedData.h"),("loaded flag and value","lazily evaluated block",K+"BlkCached.cpp")])
p("C20","A failing source, sink, key or block surfaces and leaves objects usable",
 "If an underlying source, sink, key-data, table or block object throws during an operation, that exception reaches the caller. The objects involved stay as they were: repeating the operation once the fault has gone gives exactly the result an undisturbed run gives, with no byte lost, duplicated or altered, whatever the point of failure and however many faults occur.",
 ["fault_sequences","histories"],"every position and sequence of exceptions thrown by user-supplied objects during any history of operations",
 "No test injects a failure.",
 [M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSink.cpp",M+"ECBSource.cpp",M+"Imit.cpp",M+"KeyCachedData.cpp",K+"BlkCached.cpp",K+"Imit.cpp",K+"Key.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp"],
 [("new state returned, old state untouched","write/read of the stream classes"),("flag set only after successful evaluation",M+"KeyCachedData.cpp, "+K+"BlkCached.cpp")],
 ["exceptions and results through throwing stand-ins"])
p("C21","Caches evaluate once and answer with that value for ever",
 "A cached block evaluates the block behind it at most once successfully, not before its value is first asked for, and returns that first value for ever after, whatever the value is. Cached key data likewise reads each of the eight key words from the data behind it at most once unless a read fails, never again once it has answered, and returns those values for the right indices, for any order of requests. This holds too when several threads ask at once. A Kuznyechik key evaluates each of the two key halves it is given at most once however many blocks it encrypts.",
 ["histories","inputs"],"every order and number of requests, every value (zero included), and underlying objects that change their answer or fail at first",
 NT+"the unbuilt suite asks each cache twice for one random value.",
 [K+"BlkCached.cpp",M+"KeyCachedData.cpp",K+"Key.cpp",M+"LazyKey.cpp"],
 [("loaded flag",K+"BlkCached.cpp"),("cached flag",M+"KeyCachedData.cpp"),("cached round keys",K+"Key.cpp")],
 ["kuznyechik::BlkCached","magma::KeyCachedData","kuznyechik::Key with counting stand-ins"])
p("C22","Every mode works with any implementation of the key interface",
 "Wherever a Magma or GOST 28147-89 mode accepts the abstract key, a user's own implementation of it gives the same bytes as the library's key with the same round function. This holds for ECB and CFB, encryption and decryption, and for the 64-bit block interface, for every round function, also one that is not a table substitution.",
 ["inputs","configurations"],"every implementation of the key interface (any function of word and index), data and initial value",
 NT+"the unbuilt suite only ever passes the library's own key class.",
 [M+"Key.h",M+"EncryptionBase.cpp",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSink.cpp",M+"ECBSource.cpp",G+"CFBSink.cpp",G+"CFBSource.cpp",M+"BlkForwarded.cpp",M+"BlkBackwarded.cpp"],
 [("virtual transform(word, index)",M+"Key.h")],
 ["ECB/CFB sinks and sources, EncryptionBase with a user key"])
p("C23","Key material of a wrong size is refused, never used as some other key",
 "An operation that needs a key word, a table entry or a block byte that was not given throws an exception, at construction or at the use, every time, and never yields a value: this holds for a vector of native key words shorter than eight (the missing words), a collapsed table of fewer than 64 bytes, a byte-lookup column or nibble row with fewer entries than the one asked for, a key container whose key is shorter than 32 bytes or whose table is shorter than 64, and a block made of a vector of fewer than eight bytes. The same holds when the material is reached through caches, keys, every mode and every MAC. With everything needed at hand the answer is the standard's (surplus material is ignored or refused).",
 ["inputs","configurations"],"every number and content of key words, table bytes, row entries and block bytes, and every operation that uses them",
 NT+"no test, built or not, gives a wrong-sized key, table or block.",
 [M+f for f in ("KeyDataNative.cpp","KeyCachedData.cpp","LazyKey.cpp","SboxByte64Tab.cpp","SboxByte.cpp","SboxNibble.cpp","ECBSource.cpp","BlkRaw.cpp")],
 [("bounds-checked word access",M+"KeyDataNative.cpp:key"),("bounds-checked table access",M+"SboxByte64Tab.cpp, "+M+"SboxByte.cpp, "+M+"SboxNibble.cpp"),("container to key",M+"ECBSource.cpp:makeKey"),("byte count of a block",M+"BlkRaw.cpp")],
 ["magma::KeyDataNative, SboxByte64Tab, SboxNibble, BlkRaw, ECB over a Container, and every mode over them"])
p("C24","Block text means exactly its value; malformed block text is refused",
 "A block given as text of 0 to 16 (Magma) or 0 to 32 (Kuznyechik) hexadecimal digits of either case has exactly the value the digits spell, shorter text being extended with leading zeros. Text with more digits than a block has, or with any character that is not a hexadecimal digit anywhere in it (blank, sign, 0x prefix, NUL, any other byte), is refused with an exception no later than the first use of the block, at every use, whether the block is used directly or inside copies, xors, caches and encryption, and is never silently used as some other value.",
 ["inputs"],"every text of any length and content, and every use of the block",
 NT+"no test gives malformed block text.",
 [M+"BlkString.cpp",K+"BlkString.cpp"],
 [("length and digit checks",M+"BlkString.cpp:value"),("length and digit checks, two halves",K+"BlkString.cpp:value")],
 ["magma::BlkString","kuznyechik::BlkString"])
p("C25","Sinks, sources and streams compose: a pipeline is its functions' composition",
 "Sinks may be stacked on sinks, sources on sources and CTR streams on CTR streams, in any number and mixture of modes (Magma CFB, GOST 28147-89 CFB, ECB), with separate or shared key objects. The bytes a pipeline delivers are the composition of the standard's functions of its stages, for every split into writes and every sequence of read sizes, and a pipeline of sources undoes the matching pipeline of sinks. A MAC over a decrypting pipeline or a CTR stack is the MAC of the data that pipeline yields.",
 ["inputs","configurations","histories"],"every stack of stages, keys, registers, data, write splits and read sizes",
 NT+"the unbuilt suite never puts one mode on top of another.",
 [M+f for f in ("CFBSink.cpp","CFBSource.cpp","ECBSink.cpp","ECBSource.cpp","Imit.cpp")]+[G+"CFBSink.cpp",G+"CFBSource.cpp",K+"StCTREncrypted.cpp",K+"Imit.cpp"],
 [("every stage is itself a Sink, Source or Stream","goost/Sink.h, goost/Source.h, "+K+"Stream.h")],
 ["stacked sinks, sources, streams; Imit over them"])
p("C26","Streaming is incremental, passes the data once and starts only when asked",
 "Each write to a CFB or ECB sink delivers to the underlying sink, before it returns, everything but the bytes of a block not yet complete; a CFB or ECB source takes from its underlying source no more than the block in progress beyond what was asked of it. Underlying sinks and sources are used as a chain: each object is written or read at most once per operation and the one it returned is used next, so data arrives in order and is never taken or delivered twice; the MACs likewise pass over their data once. A CTR stream evaluates a block of the stream behind it, and goes on to the next one, only when the walk does, and constructing any object reads, writes and evaluates nothing.",
 ["histories","inputs"],"every data, split into writes, sequence of read sizes and kind of object",
 NT+"no test looks at when data arrives, or at how often the underlying objects are used.",
 ["README.md"]+[M+f for f in ("CFBSink.cpp","CFBSource.cpp","ECBSink.cpp","ECBSource.cpp","Imit.cpp")]+[G+"CFBSink.cpp",G+"CFBSource.cpp",K+"StCTREncrypted.cpp",K+"Imit.cpp"],
 [("continuation objects","goost/Sink.h, goost/Source.h: write/read return a new object"),("no code in constructors","README.md principles")],
 ["journals of single-use sinks, sources, streams and counting stand-ins"])
p("C27","Streaming takes work proportional to the data and memory independent of it",
 "The work of every mode and MAC grows in proportion to the number of blocks, for data written, read or walked in one piece, in large ones or a few bytes at a time, and whatever the number of reads and writes: twice the message takes about twice the executed code, copied bytes and allocated bytes, not four times. The memory a stream in progress occupies does not grow with the amount of data that has passed through it, and a Kuznyechik key works out its round keys once, so every block after its first costs a small fraction of the first.",
 ["inputs","histories"],"every message length, mode, split into writes, sequence of read sizes",
 NT+"the longest message in any test is four blocks.",
 [M+f for f in ("CFBSink.cpp","CFBSource.cpp","ECBSink.cpp","ECBSource.cpp","Imit.cpp")]+[G+"CFBSink.cpp",G+"CFBSource.cpp",G+"DataImit.cpp",K+"StCTREncrypted.cpp",K+"StMemory.cpp",K+"Imit.cpp"],
 [("constant-size state handed from object to object","write/read/next of the stream classes")],
 ["executed edges, copied and allocated bytes, peak of live heap memory"])
p("C28","Sources may deliver in pieces: only a delivery of nothing is the end",
 "A source that delivers fewer bytes than asked for is read on: whenever the underlying source delivers its data in pieces of any sizes (at least one byte until its end, then nothing), the CFB and ECB sources of both standards and the Magma MAC give byte for byte what they give over a source that delivers in full. Ciphertext is taken to end inside a block only when the underlying source really ends there. Re-reading from a kept source object gives the same again.",
 ["inputs","histories"],"every data, every sequence of piece sizes of the underlying source, and every sequence of read sizes",
 NT+"every source in the suite delivers in full.",
 [M+"CFBSource.cpp",M+"ECBSource.cpp",M+"Imit.cpp",G+"CFBSource.cpp"],
 [("reading on until the block is full or the source ends","goost/SourceBlock.h, used by read of the sources and "+M+"Imit.cpp:value")],
 ["CFBSource, ECBSource, Imit over sources delivering in pieces"])
p("C29","Objects keep what they were made of",
 "Whatever is given to an object when it is made or called - vectors, strings and arrays of key words, key text, tables, data, and handles to blocks, keys, key data, tables, sources, sinks, streams and iterators - is copied or kept alive by the object: the caller may overwrite, clear or free its own vectors and strings and drop all its handles at any moment, in any order, before the first use as well as between uses, and every later answer is still that of what was given. The same holds for continuation objects (what write, read, iter, next, head or tail returned) after the object they came from is gone.",
 ["histories","inputs"],"every kind of object, every order in which the caller's things are overwritten and freed, before and between uses",
 NT+"the unbuilt suite keeps everything alive to the end of each test.",
 [M+f for f in ("KeyDataNative.cpp","KeyDataString.cpp","LazyKey.cpp","SboxByte64Tab.cpp","SboxNibble.cpp","BlkString.cpp","CFBSink.cpp","CFBSource.cpp","ECBSink.cpp","ECBSource.cpp","Imit.cpp")]+[G+"DataImit.cpp",G+"CFBSink.cpp",K+"StMemory.cpp",K+"StCTREncrypted.cpp",K+"Key.cpp",K+"BlkString.cpp"],
 [("members hold values or shared handles","member declarations of all classes")],
 ["every public class, constructed from the caller's own vectors, strings and handles"])
p("C30","No history of use leaks memory",
 "Repeating any script of use - making keys, blocks, tables, sinks, sources, streams, MACs, using them wholly or giving them up half way, also where operations are refused or fail with an exception - with other keys and data of the same sizes does not make the memory in use grow without end: once the script's objects are gone, what they used is given back (apart from a bounded amount set up once).",
 ["histories","fault_sequences"],"every script, including ones with refusals, failing allocations and objects given up half way",
 NT+"no test measures memory or runs anything twice.",
 ["goost (whole library)",M+"LazyKey.cpp",K+"Key.cpp",K+"StMemory.cpp",K+"StCTREncrypted.cpp",M+"ECBSource.cpp"],
 [("ownership by smart pointers without cycles","member declarations of all classes"),("README principles: no static, no null","README.md")],
 ["heap memory in use after each repetition"])
p("C31","Running out of memory is reported and harmless",
 "When an allocation fails inside any construction, evaluation, write, read, finalize, iter, next or value, the call ends with an exception or with the right answer - never a wrong answer, a crash or a hang -, and nothing is spoilt: the same call made again on the same objects with memory at hand gives the right answer, as do all later calls, and a refusal of wrong input stays a refusal.",
 ["fault_sequences","histories"],"every operation and every position at which allocation fails, repeatedly",
 NT+"no test makes anything fail.",
 [K+"BlkCached.cpp",M+"KeyCachedData.cpp",K+"Key.cpp"]+[M+f for f in ("LazyKey.cpp","CFBSink.cpp","CFBSource.cpp","ECBSink.cpp","ECBSource.cpp","Imit.cpp")]+[G+"DataImit.cpp",K+"StCTREncrypted.cpp",K+"Imit.cpp"],
 [("caches filled only by a completed evaluation",K+"BlkCached.cpp, "+M+"KeyCachedData.cpp"),("immutable objects","README.md principles")],
 ["every operation with operator new failing at generated positions"])
p("C32","Answers do not depend on the state of the process, which is left alone",
 "The answers are the same whatever the state of the process in which objects are made and used: global C++ locale (whatever its facets), C locale, errno, floating-point rounding and flushing modes, environment variables, clocks, no more files to be had, while an exception is being handled or the stack unwound, on whatever thread and at the end of it, in a forked child, before main (static initialisers, ahead of the library's own) and at exit (static destructors). The library leaves the locale, the rounding mode, the standard streams' formats, signal handlers, open files, working directory, environment variables and the state of rand as they were and prints nothing.",
 ["configurations","inputs"],"every process state of the list combined with every kind of object and operation",
 NT+"the unbuilt suite runs in the initial state of a process only.",
 ["README.md",M+"KeyDataString.cpp",M+"BlkString.cpp",K+"BlkString.cpp",K+"KeyDataString.cpp",M+"SboxR3412.cpp",K+"BlkS.cpp",K+"BlkL.cpp"],
 [("text read in the classic locale",M+"KeyDataString.cpp"),("no static objects","README.md principles")],
 ["every operation, in generated states of the process"])
p("C33","Programs may include any headers and use any names",
 "A program that includes the standard headers and then any headers of the library, in any order and as often as it likes, in any number of source files, compiles with GCC and Clang as C++17, C++20 and C++23 with no option but the include path, links with the library, and gets the documented answers. It may have classes, enumerations and types of its own outside namespace goost under any name - those of the library's classes and internal helpers and of standard ones included - and implement any of the library's interfaces; neither side's things are mistaken for the other's.",
 ["inputs","configurations"],"every program that uses the library: headers, order, source files, own names, compiler, language version",
 NT+"the one program that is built includes a few headers once.",
 ["goost","CMakeLists.txt",K+"StCTREncrypted.cpp","goost/gost89/DataImit.h",M+"SboxByte64Tab.h"],
 [("#pragma once in every header","goost"),("everything in namespace goost","goost")],
 ["compiling, linking and running any user program"])
p("C34","The library may be used from within the calls it makes",
 "The user's own tables, lookups, key data, blocks, sources, sinks, streams and iterators may use the library themselves while it is calling them, to any depth: with other objects, of the same classes too, and with the very objects in use, from where the call in progress found them. The nested uses and the call in progress all end and give the answers they would give one after the other. The one exception is asking a cache for what it is just being filled with.",
 ["histories","inputs"],"every call the library makes to an object of the user, every use of the library from there",
 NT+"no object of the suite's own does anything but answer.",
 ["README.md",M+"EncryptionBase.cpp",M+"CFBSink.cpp",M+"CFBSource.cpp",M+"ECBSource.cpp",M+"Imit.cpp",G+"DataImit.cpp",K+"Imit.cpp",K+"StCTREncrypted.cpp"],
 [("no static or shared scratch state","README.md principles"),("state of a call is local to it","value/read/write of every class")],
 ["every operation, nested in a callback of another one"])
p("C35","Answers do not depend on how library and program are built",
 "Library and program give the documented answers whether GCC or Clang builds them (also one of them each), without optimisation, with any level of it, for size or at link time, with assertions on or off in either of them, with plain char signed or unsigned, as a static or a shared library, with the usual hardening options, the assertions of the C++ standard library among them. Nothing depends on the order in which a compiler evaluates arguments, on what uninitialised variables hold, or on the types of the objects in the memory that blocks are made of, and classes have the same layout in all these builds.",
 ["configurations","inputs"],"every build of library and program of these kinds, every operation and input",
 NT+"the one stable test is run in one build.",
 ["conanfile.py","CMakeLists.txt",M+"BlkRaw.cpp",K+"BlkRaw.cpp",M+"KeyDataString.cpp",M+"BlkString.cpp",G+"DataImit.cpp",M+"CFBSink.cpp",K+"BlkIncremented.cpp"],
 [("settings compiler and build_type, option shared","conanfile.py"),("memory copied, not cast",M+"BlkRaw.cpp, "+K+"BlkRaw.cpp")],
 ["every operation, in each of nine builds"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
