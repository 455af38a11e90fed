From 21165feaf9a10020798d5943f220fda24ca139ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 01/26] fix: CFB sinks encrypt a partial last block with the
 leading keystream bytes

finalize() wrote eight bytes into a shorter buffer and used the keystream
halves in the wrong order, so the tail could not be decrypted.
---
 goost/gost89/CFBSink.cpp | 5 ++---
 goost/magma/CFBSink.cpp  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..0308a15 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..8ddc1ee 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 2c9ab48c3134d1fef4ef9297fb28bfc6cdd90d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 02/26] fix: CFB sources stay inside the buffer of a partial
 last block

---
 goost/gost89/CFBSource.cpp | 6 +++---
 goost/magma/CFBSource.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..53ab654 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -58,13 +58,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			break;
 		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..336e7fa 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -61,13 +61,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From 336625e12d6686441803a555e9d8fd7c9a5828b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 03/26] fix: ECB source refuses ciphertext that ends inside a
 block

It read and wrote eight bytes in a shorter buffer.
---
 goost/magma/ECBSource.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..18d1551 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -45,6 +45,9 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 		// Decryption is done
 		return {p, s};
 	}
+	if (p.size() != Block::size) {
+		throw runtime_error("Unaligned ECB decryption");
+	}
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-- 
2.43.0


From 284955014f875c1af30a47616b260bfe533465cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 04/26] fix: magma BlkShifted carries bits between 32-bit
 halves

The carry was shifted by 64 - n, out of range for a 32-bit word.
---
 goost/magma/BlkShifted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..83220ac 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,5 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	return {value.first << n, value.second << n | value.first >> (32 - n)};
 }
-- 
2.43.0


From 43481668896b609a7ca5ba2078d63d73bff5745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 05/26] fix: kuznyechik StMemory yields half a block for an odd
 last word

It read a word behind the end of the data and reported a whole block.
---
 goost/kuznyechik/StMemory.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..69f5a6f 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -18,7 +18,8 @@ public:
 	ItMemory(
 		const weak_ptr<const StMemory> &stream,
 		size_t offset,
-		const shared_ptr<const Block> &data
+		const shared_ptr<const Block> &data,
+		size_t data_size
 	);
 
 	pair<uint64_t, uint64_t> value() const override;
@@ -29,6 +30,7 @@ private:
 	const weak_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
+	const size_t data_size;
 };
 
 }  // namespace kuznyechik
@@ -37,8 +39,9 @@ private:
 ItMemory::ItMemory(
 	const weak_ptr<const StMemory> &stream,
 	size_t offset,
-	const shared_ptr<const Block> &data
-) : stream(stream), offset(offset), data(data)
+	const shared_ptr<const Block> &data,
+	size_t data_size
+) : stream(stream), offset(offset), data(data), data_size(data_size)
 {
 }
 
@@ -54,7 +57,7 @@ bool ItMemory::last() const
 
 size_t ItMemory::size() const
 {
-	return Block::size;
+	return data_size;
 }
 
 shared_ptr<const Iterator> ItMemory::next() const
@@ -75,12 +78,22 @@ shared_ptr<const Iterator> StMemory::iter() const
 
 shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 {
-	if (data.size() <= offset / sizeof(uint64_t)) {
+	const auto index = offset / sizeof(uint64_t);
+	if (data.size() <= index) {
 		return {};
 	}
+	if (data.size() == index + 1) {
+		return make_shared<const ItMemory>(
+			shared_from_this(),
+			offset,
+			make_shared<BlkRaw>(data[index]),
+			sizeof(uint64_t)
+		);
+	}
 	return make_shared<const ItMemory>(
 		shared_from_this(),
 		offset,
-		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)])
+		make_shared<BlkRaw>(&data[index]),
+		Block::size
 	);
 }
-- 
2.43.0


From 64e3257d6ea7c08bf86d8bd1be2692852089e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 06/26] fix: kuznyechik memory iterators keep their stream
 alive

An iterator that outlived the stream dereferenced a null pointer.
---
 goost/kuznyechik/StMemory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 69f5a6f..71ea732 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,7 +16,7 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
 		const shared_ptr<const Block> &data,
 		size_t data_size
@@ -27,7 +27,7 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
 	const size_t data_size;
@@ -37,7 +37,7 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
 	const shared_ptr<const Block> &data,
 	size_t data_size
@@ -62,8 +62,7 @@ size_t ItMemory::size() const
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
-- 
2.43.0


From 46df9467bd87f4e0293da643ac5de0580f515a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 07/26] fix: kuznyechik CTR stream ends where the underlying
 stream ends

Behind the last block, and for an empty stream, it returned an iterator
over a null one.
---
 goost/kuznyechik/StCTREncrypted.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..7b98897 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,11 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	const auto next_iter = iter->next();
+	if (!next_iter) {
+		return {};
+	}
+	return make_shared<ItCTREncrypted>(next_iter, key, make_shared<BlkIncremented>(ctr));
 }
 
 StCTREncrypted::StCTREncrypted(
@@ -70,5 +74,9 @@ StCTREncrypted::StCTREncrypted(
 
 shared_ptr<const Iterator> StCTREncrypted::iter() const
 {
-	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));
+	const auto first = stream->iter();
+	if (!first) {
+		return {};
+	}
+	return make_shared<const ItCTREncrypted>(first, key, make_unique<BlkRaw>(0, iv));
 }
-- 
2.43.0


From 11d735d5e75f84dcd9443f5d8805ad88ccdc1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 08/26] fix: MACs and CTR streams evaluate step by step

They built one nested expression over the whole message, so a message of a
few kilobytes overflowed the stack.
---
 goost/kuznyechik/Imit.cpp           | 8 +++++---
 goost/kuznyechik/StCTREncrypted.cpp | 6 +++++-
 goost/magma/Imit.cpp                | 2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..cd1445e 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -54,9 +54,11 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-		block = make_shared<const BlkEncrypted>(
-			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
-			key
+		block = make_shared<const BlkRaw>(
+			BlkEncrypted(
+				make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
+				key
+			).value()
 		);
 		iter = iter->next();
 	}
diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 7b98897..d77b3f2 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -61,7 +61,11 @@ shared_ptr<const Iterator> ItCTREncrypted::next() const
 	if (!next_iter) {
 		return {};
 	}
-	return make_shared<ItCTREncrypted>(next_iter, key, make_shared<BlkIncremented>(ctr));
+	return make_shared<ItCTREncrypted>(
+		next_iter,
+		key,
+		make_shared<BlkRaw>(BlkIncremented(ctr).value())
+	);
 }
 
 StCTREncrypted::StCTREncrypted(
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..a0ea229 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -96,7 +96,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		block = make_shared<BlkRaw>(BlkEncrypted(block, key).value());
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From 53329696a340f50a3a73230ae98ac168e123bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 09/26] fix: kuznyechik MAC refuses an empty stream

It dereferenced the null iterator of the empty stream.
---
 goost/kuznyechik/Imit.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index cd1445e..855e2b0 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "Imit.h"
+#include <stdexcept>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "BlkShifted.h"
@@ -51,6 +52,9 @@ Imit::Imit(const shared_ptr<const Stream> &data, const shared_ptr<const Key> &ke
 std::pair<uint64_t, uint64_t> Imit::value() const
 {
 	auto iter = data->iter();
+	if (!iter) {
+		throw runtime_error("Imit of empty stream");
+	}
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-- 
2.43.0


From 13d3565b4300714ec941b4a3497c6883166b7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:25 +0000
Subject: [PATCH 10/26] fix: cached key data and cached blocks may be shared
 between threads

The first uses of one const key from two threads raced on the cache.
---
 goost/kuznyechik/BlkCached.cpp | 14 ++++++++++----
 goost/magma/KeyCachedData.cpp  |  9 ++++++---
 goost/magma/KeyCachedData.h    |  8 ++++++--
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/goost/kuznyechik/BlkCached.cpp b/goost/kuznyechik/BlkCached.cpp
index 3b5552e..e10aeba 100644
--- a/goost/kuznyechik/BlkCached.cpp
+++ b/goost/kuznyechik/BlkCached.cpp
@@ -4,6 +4,8 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkCached.h"
+#include <atomic>
+#include <mutex>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -11,20 +13,24 @@ using namespace goost::kuznyechik;
 class BlkCached::BlockCache final {
 public:
 	explicit BlockCache(const shared_ptr<const Block> &block)
-		: loaded(false), state(), block(block)
+		: mutex(), loaded(false), state(), block(block)
 	{
 	}
 
 	pair<uint64_t, uint64_t> value()
 	{
 		if (!loaded) {
-			state = block->value();
-			loaded = true;
+			const lock_guard<std::mutex> lock(mutex);
+			if (!loaded) {
+				state = block->value();
+				loaded = true;
+			}
 		}
 		return state;
 	}
 private:
-	bool loaded;
+	std::mutex mutex;
+	atomic<bool> loaded;
 	pair<uint64_t, uint64_t> state;
 	const shared_ptr<const Block> block;
 };
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..8a9a5ce 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -16,10 +16,13 @@ KeyCachedData::KeyCachedData(unique_ptr<const KeyData> keydata)
 uint32_t KeyCachedData::key(int index) const
 {
 	if (!cache->cached) {
-		for (size_t i = 0; i < cache->key.size(); i++) {
-			cache->key[i] = keydata->key(i);
+		const lock_guard<mutex> lock(cache->mutex);
+		if (!cache->cached) {
+			for (size_t i = 0; i < cache->key.size(); i++) {
+				cache->key[i] = keydata->key(i);
+			}
+			cache->cached = true;
 		}
-		cache->cached = true;
 	}
 	return cache->key[index];
 }
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fde79be..5483e29 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -5,7 +5,10 @@
 
 #pragma once
 #include "KeyData.h"
+#include <array>
+#include <atomic>
 #include <memory>
+#include <mutex>
 
 namespace goost {
 namespace magma {
@@ -16,8 +19,9 @@ public:
 	uint32_t key(int index) const override;
 private:
 	struct CachedData {
-		bool cached;
-		std::array<uint32_t, 8> key;
+		std::mutex mutex{};
+		std::atomic<bool> cached{false};
+		std::array<uint32_t, 8> key{};
 	};
 	const std::unique_ptr<CachedData> cache;
 	const std::unique_ptr<const KeyData> keydata;
-- 
2.43.0


From a5ba24fc23197aa863eb601c2aa115786c075bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 11/26] fix: malformed key text is refused by both ciphers

Magma silently used zero or a truncated number for a word that is not hex;
kuznyechik also accepted 32 to 63 and more than 64 characters.
---
 goost/kuznyechik/KeyDataString.cpp | 16 ++++++++++++++--
 goost/kuznyechik/KeyDataString.h   |  1 +
 goost/magma/KeyDataString.cpp      |  3 +++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..fa39a02 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -17,10 +18,21 @@ KeyDataString::KeyDataString(const string &key_data)
 
 shared_ptr<const Block> KeyDataString::low() const
 {
-	return make_shared<BlkString>(string(key_data, 32, 32));
+	return part(32);
 }
 
 shared_ptr<const Block> KeyDataString::high() const
 {
-	return make_shared<BlkString>(string(key_data, 0, 32));
+	return part(0);
+}
+
+shared_ptr<const Block> KeyDataString::part(size_t offset) const
+{
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
+	return make_shared<BlkString>(string(key_data, offset, 32));
 }
diff --git a/goost/kuznyechik/KeyDataString.h b/goost/kuznyechik/KeyDataString.h
index 1744e0f..3a3a746 100644
--- a/goost/kuznyechik/KeyDataString.h
+++ b/goost/kuznyechik/KeyDataString.h
@@ -17,6 +17,7 @@ public:
 	std::shared_ptr<const Block> high() const override;
 private:
 	const std::string key_data;
+	std::shared_ptr<const Block> part(size_t offset) const;
 };
 
 }  // namespace kuznyechik
diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..b6e1603 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -20,6 +20,9 @@ uint32_t KeyDataString::key(int index) const
 	if (key_data.size() != 64) {
 		throw runtime_error("Wrong key size");
 	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
 	if (index < 0 || index > 7) {
 		throw runtime_error("Wrong key index");
 	}
-- 
2.43.0


From 63a9967ff18b1b476bb6f18b820fab6d03a52935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 12/26] fix: magma and GOST-89 modes accept any implementation
 of Key

CFB sinks and sources and the ECB source cast the abstract key they are
given to LazyKey and dereferenced null for every other implementation.
---
 goost/gost89/CFBSink.cpp      | 6 +++---
 goost/gost89/CFBSource.cpp    | 4 ++--
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 6 +++---
 goost/magma/CFBSource.cpp     | 4 ++--
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 14 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 0308a15..8302912 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -10,7 +10,7 @@
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
 #include <goost/magma/Block.h>
-#include <goost/magma/LazyKey.h>
+#include <goost/magma/Key.h>
 
 using namespace std;
 using namespace goost;
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 53ab654..020aea5 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -7,7 +7,7 @@
 #include <cstring>
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
-#include <goost/magma/LazyKey.h>
+#include <goost/magma/Key.h>
 
 using namespace std;
 using namespace goost;
@@ -50,7 +50,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 8ddc1ee..06ebcbb 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -8,7 +8,7 @@
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "Block.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost;
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +68,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index 336e7fa..67b58ac 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -7,7 +7,7 @@
 #include <cstring>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost;
@@ -52,7 +52,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 18d1551..acacfc6 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -51,7 +51,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index a0ea229..3c840f6 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
-- 
2.43.0


From 33ba1ac10028ecb0c94c2fb68cc35c460d3d04d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:46 +0000
Subject: [PATCH 13/26] fix: key words that were not given are refused, not
 read past the key

---
 goost/magma/KeyCachedData.cpp | 2 +-
 goost/magma/KeyDataNative.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 8a9a5ce..33c5417 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -24,5 +24,5 @@ uint32_t KeyCachedData::key(int index) const
 			cache->cached = true;
 		}
 	}
-	return cache->key[index];
+	return cache->key.at(index);
 }
diff --git a/goost/magma/KeyDataNative.cpp b/goost/magma/KeyDataNative.cpp
index 1e4ec71..f96d768 100644
--- a/goost/magma/KeyDataNative.cpp
+++ b/goost/magma/KeyDataNative.cpp
@@ -15,5 +15,5 @@ KeyDataNative::KeyDataNative(const vector<uint32_t> &key_data)
 
 uint32_t KeyDataNative::key(int index) const
 {
-	return key_data[index];
+	return key_data.at(index);
 }
-- 
2.43.0


From dbbe45bc493922fa3e5337424b25d7f5a03555be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:46 +0000
Subject: [PATCH 14/26] fix: table entries that were not given are refused, not
 read past the table

---
 goost/magma/SboxByte64Tab.cpp | 4 ++--
 goost/magma/SboxNibble.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/magma/SboxByte64Tab.cpp b/goost/magma/SboxByte64Tab.cpp
index 70a191f..542b215 100644
--- a/goost/magma/SboxByte64Tab.cpp
+++ b/goost/magma/SboxByte64Tab.cpp
@@ -15,6 +15,6 @@ SboxByte64Tab::SboxByte64Tab(const vector<uint8_t> &uz, int offset)
 
 uint32_t SboxByte64Tab::translate(int index) const
 {
-	return (uz[((index >> 4) & 0xf) * 4 + offset] & 0xf0)
-		+ (uz[(index & 0xf) * 4 + offset] & 0x0f);
+	return (uz.at(((index >> 4) & 0xf) * 4 + offset) & 0xf0)
+		+ (uz.at((index & 0xf) * 4 + offset) & 0x0f);
 }
diff --git a/goost/magma/SboxNibble.cpp b/goost/magma/SboxNibble.cpp
index c481ab4..9297a25 100644
--- a/goost/magma/SboxNibble.cpp
+++ b/goost/magma/SboxNibble.cpp
@@ -30,5 +30,5 @@ uint32_t SboxNibble::transform(uint32_t value) const
 uint32_t SboxNibble::transformN(uint32_t value, const vector<int> &p, int nidx) const
 {
 	const int i = (value >> (nidx * 4)) & 0xf;
-	return uint32_t(p[i]) << (nidx * 4);
+	return uint32_t(p.at(i)) << (nidx * 4);
 }
-- 
2.43.0


From 751aa0cc4072f1123b9d533027e50fbdcbe76167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:46 +0000
Subject: [PATCH 15/26] fix: key containers with a key or table of a wrong size
 are refused

---
 goost/magma/ECBSource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index acacfc6..7f344ae 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -64,6 +64,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 	vector<uint32_t> key(8);
 	// @todo need to use mask
 	const auto ik = container->key();
+	if (ik.size() != key.size() * sizeof(uint32_t)) {
+		throw runtime_error("Wrong container key size");
+	}
 	memcpy(&key[0], &ik[0], ik.size());
 	for (auto &k : key) {
 		k = htonl(k);
@@ -71,6 +74,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 
 	vector<uint8_t> sbox(64);
 	const auto is = container->sbox();
+	if (is.size() != sbox.size()) {
+		throw runtime_error("Wrong container sbox size");
+	}
 	memcpy(&sbox[0], &is[0], is.size());
 
 	return make_shared<LazyKey>(key, make_shared<SboxTwisted>(make_unique<SboxByte>(sbox)));
-- 
2.43.0


From 8862e641cb95f74d566157711136dda8ceed4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:09 +0000
Subject: [PATCH 16/26] fix: a block of fewer than eight bytes is refused, not
 read past its end

---
 goost/magma/BlkRaw.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/goost/magma/BlkRaw.cpp b/goost/magma/BlkRaw.cpp
index a5d62c9..39bbe7d 100644
--- a/goost/magma/BlkRaw.cpp
+++ b/goost/magma/BlkRaw.cpp
@@ -5,6 +5,7 @@
 
 #include "BlkRaw.h"
 #include <iomanip>
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -31,8 +32,9 @@ BlkRaw::BlkRaw(uint64_t block)
 
 BlkRaw::BlkRaw(const vector<uint8_t> &block)
 	: BlkRaw(
-		reinterpret_cast<const uint32_t *>(&block[0])[0],
-		reinterpret_cast<const uint32_t *>(&block[0])[1]
+		block.size() < size
+			? throw runtime_error("Wrong block size")
+			: static_cast<const void *>(&block[0])
 	  )
 {
 }
-- 
2.43.0


From 0da47df36a441b9ee5dcbe182a9682a34cc31eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:09 +0000
Subject: [PATCH 17/26] fix: blocks may be shifted by nothing and by half a
 block or more

---
 goost/kuznyechik/BlkShifted.cpp | 6 ++++++
 goost/magma/BlkShifted.cpp      | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/BlkShifted.cpp b/goost/kuznyechik/BlkShifted.cpp
index cda6197..310b95b 100644
--- a/goost/kuznyechik/BlkShifted.cpp
+++ b/goost/kuznyechik/BlkShifted.cpp
@@ -16,5 +16,11 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint64_t, uint64_t> BlkShifted::value() const
 {
 	const auto value = block->value();
+	if (n == 0) {
+		return value;
+	}
+	if (n >= 64) {
+		return {0, value.first << (n - 64)};
+	}
 	return {value.first << n, value.second << n | value.first >> (64 - n)};
 }
diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 83220ac..2b96916 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,6 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (32 - n)};
+	const auto shifted = (uint64_t(value.second) << 32 | value.first) << n;
+	return {uint32_t(shifted), uint32_t(shifted >> 32)};
 }
-- 
2.43.0


From b5b4597ea70392030a1550f47c76aa25298c6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:09 +0000
Subject: [PATCH 18/26] fix: malformed block text is refused

---
 goost/kuznyechik/BlkString.cpp | 7 +++++++
 goost/magma/BlkString.cpp      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/goost/kuznyechik/BlkString.cpp b/goost/kuznyechik/BlkString.cpp
index 762b7f8..8709448 100644
--- a/goost/kuznyechik/BlkString.cpp
+++ b/goost/kuznyechik/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -15,6 +16,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint64_t, uint64_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block digit");
+	}
 	auto value = block;
 	while (value.size() < sizeof(uint64_t) * 2 * 2) {
 		value.insert(0, 1, '0');
diff --git a/goost/magma/BlkString.cpp b/goost/magma/BlkString.cpp
index 07c57d4..5b7afca 100644
--- a/goost/magma/BlkString.cpp
+++ b/goost/magma/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,6 +16,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint32_t, uint32_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block digit");
+	}
 	auto value = block;
 	while (value.size() < Block::size * 2) {
 		value.insert(0, 1, '0');
-- 
2.43.0


From d2ecff6d0608ec11b2d3e69198e4e4f7563fece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:18 +0000
Subject: [PATCH 19/26] fix: sources that deliver in pieces are read on, not
 taken for ended

---
 goost/SourceBlock.h        | 42 ++++++++++++++++++++++++++++++++++++++
 goost/gost89/CFBSource.cpp |  3 ++-
 goost/magma/CFBSource.cpp  |  3 ++-
 goost/magma/ECBSource.cpp  |  3 ++-
 goost/magma/Imit.cpp       |  6 +++---
 5 files changed, 51 insertions(+), 6 deletions(-)
 create mode 100644 goost/SourceBlock.h

diff --git a/goost/SourceBlock.h b/goost/SourceBlock.h
new file mode 100644
index 0000000..bd92dd5
--- /dev/null
+++ b/goost/SourceBlock.h
@@ -0,0 +1,42 @@
+// Copyright (c) 2017-2021 Andrey Valyaev <dron.valyaev@gmail.com>
+//
+// This software may be modified and distributed under the terms
+// of the MIT license.  See the LICENSE file for details.
+
+#pragma once
+#include <stdexcept>
+#include "Source.h"
+
+namespace goost {
+
+// A block of size bytes from a source, which may deliver it in pieces.
+// The block is shorter only at the end of the source.
+class SourceBlock final {
+public:
+	SourceBlock(const std::shared_ptr<const Source> &source, size_t size)
+		: source(source), size(size)
+	{
+	}
+
+	std::pair<std::vector<std::byte>, std::shared_ptr<const Source>> value() const
+	{
+		auto block = source->read(size);
+		auto piece = block.first.size();
+		while (piece > 0 && block.first.size() < size) {
+			const auto next = block.second->read(size - block.first.size());
+			piece = next.first.size();
+			block.first.insert(block.first.end(), next.first.begin(), next.first.end());
+			block.second = next.second;
+		}
+		if (block.first.size() > size) {
+			throw std::runtime_error("Source delivered more than requested");
+		}
+		return block;
+	}
+
+private:
+	const std::shared_ptr<const Source> source;
+	const size_t size;
+};
+
+}  // namespace goost
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 020aea5..7560e7f 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -5,6 +5,7 @@
 
 #include "CFBSource.h"
 #include <cstring>
+#include <goost/SourceBlock.h>
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
 #include <goost/magma/Key.h>
@@ -53,7 +54,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			key
 		).value();
 
-		tie(p, s) = s->read(8);
+		tie(p, s) = SourceBlock(s, 8).value();
 		if (p.empty()) {
 			break;
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index 67b58ac..1c15bb1 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -5,6 +5,7 @@
 
 #include "CFBSource.h"
 #include <cstring>
+#include <goost/SourceBlock.h>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "Key.h"
@@ -55,7 +56,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			key
 		).value();
 
-		tie(p, s) = s->read(8);
+		tie(p, s) = SourceBlock(s, 8).value();
 		if (p.empty()) {
 			break;
 		}
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 7f344ae..71d05e8 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -5,6 +5,7 @@
 
 #include "ECBSource.h"
 #include <cstring>
+#include <goost/SourceBlock.h>
 #include <netinet/in.h>
 #include "Container.h"
 #include "BlkDecrypted.h"
@@ -40,7 +41,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	auto s = source;
 	vector<byte> p;
-	tie(p, s) = s->read(8);
+	tie(p, s) = SourceBlock(s, Block::size).value();
 	if (p.empty()) {
 		// Decryption is done
 		return {p, s};
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 3c840f6..71a99e6 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -5,7 +5,7 @@
 
 #include "Imit.h"
 #include <cstring>
-#include <goost/Source.h>
+#include <goost/SourceBlock.h>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "BlkShifted.h"
@@ -84,7 +84,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 	auto s = data;
 
 	vector<byte> b;
-	tie(b, s) = s->read(Block::size);
+	tie(b, s) = goost::SourceBlock(s, Block::size).value();
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
@@ -93,7 +93,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.size() < Block::size) {
 			break;
 		}
-		tie(b, s) = s->read(Block::size);
+		tie(b, s) = goost::SourceBlock(s, Block::size).value();
 		if (b.empty()) {
 			break;
 		}
-- 
2.43.0


From b1554998c10f52c1aab0416e69d48f8fad76ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 20/26] fix: MAC of an incomplete last block does not depend on
 the bytes behind it

---
 goost/kuznyechik/Imit.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index 855e2b0..b07efd3 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -41,6 +41,34 @@ private:
 	const shared_ptr<const Block> b;
 };
 
+// First size bytes of a block, zeros behind them
+class BlkHead final : public Block {
+public:
+	BlkHead(const shared_ptr<const Block> &block, size_t block_size)
+		: block(block), block_size(block_size)
+	{
+	}
+
+	pair<uint64_t, uint64_t> value() const override
+	{
+		const auto v = block->value();
+		const size_t half = sizeof(uint64_t);
+		return {
+			v.first & mask(block_size),
+			v.second & mask(block_size > half ? block_size - half : 0)
+		};
+	}
+
+private:
+	uint64_t mask(size_t bytes) const
+	{
+		return bytes < sizeof(uint64_t) ? (uint64_t(1) << (bytes * 8)) - 1 : ~uint64_t(0);
+	}
+
+	const shared_ptr<const Block> block;
+	const size_t block_size;
+};
+
 }  // namespace kuznyechik
 }  // namespace goost
 
@@ -72,7 +100,7 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 		make_unique<BlkEncrypted>(make_unique<BlkRaw>(), key),
 		B
 	);
-	const auto xblock = make_shared<BlkXored>(block, make_unique<BlkRaw>(iter->value()));
+	const auto xblock = make_shared<BlkXored>(block, make_unique<BlkHead>(iter, iter->size()));
 
 	if (iter->size() == Block::size) {
 		return BlkEncrypted(make_unique<BlkXored>(xblock, K1), key).value();
-- 
2.43.0


From 3cdb1034f1845125614430ce2158193391f61f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 21/26] fix: lookup objects of a table get byte indexes, not
 whole words

---
 goost/magma/SboxByte.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/magma/SboxByte.cpp b/goost/magma/SboxByte.cpp
index 8c5d352..938acbc 100644
--- a/goost/magma/SboxByte.cpp
+++ b/goost/magma/SboxByte.cpp
@@ -31,8 +31,8 @@ SboxByte::SboxByte(
 
 uint32_t SboxByte::transform(uint32_t v) const
 {
-	return tab1->translate(v) |
-		(tab2->translate(v >> 8) << 8) |
-		(tab3->translate(v >> 16) << 16) |
+	return tab1->translate(v & 0xff) |
+		(tab2->translate((v >> 8) & 0xff) << 8) |
+		(tab3->translate((v >> 16) & 0xff) << 16) |
 		(tab4->translate(v >> 24) << 24);
 }
-- 
2.43.0


From 2eece78dc6da1c4fbf8e303f25f873407b3ef234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:35 +0000
Subject: [PATCH 22/26] fix: key text is read the same way under every global
 locale

---
 goost/magma/KeyDataString.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index b6e1603..a6e7bb7 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 
@@ -29,6 +30,7 @@ uint32_t KeyDataString::key(int index) const
 
 	uint32_t value;
 	istringstream in(string(key_data, index * 8, 8));
+	in.imbue(locale::classic());
 	in >> hex >> value;
 	return value;
 }
-- 
2.43.0


From 6ee1a97436fe0a268d0506dd836063aa11bb988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 23/26] fix: headers DataImit.h and SboxByte64Tab.h may be
 included more than once

Both lacked the #pragma once every other header has, so a source file that
reached one of them twice did not compile.
---
 goost/gost89/DataImit.h     | 1 +
 goost/magma/SboxByte64Tab.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/goost/gost89/DataImit.h b/goost/gost89/DataImit.h
index ac6188b..051f88f 100644
--- a/goost/gost89/DataImit.h
+++ b/goost/gost89/DataImit.h
@@ -3,6 +3,7 @@
 // This software may be modified and distributed under the terms
 // of the MIT license.  See the LICENSE file for details.
 
+#pragma once
 #include <memory>
 #include <vector>
 #include <goost/magma/LazyKey.h>
diff --git a/goost/magma/SboxByte64Tab.h b/goost/magma/SboxByte64Tab.h
index e10532f..462f0e8 100644
--- a/goost/magma/SboxByte64Tab.h
+++ b/goost/magma/SboxByte64Tab.h
@@ -3,6 +3,7 @@
 // This software may be modified and distributed under the terms
 // of the MIT license.  See the LICENSE file for details.
 
+#pragma once
 #include "SboxByte.h"
 
 namespace goost {
-- 
2.43.0


From ae05b62080a30aac92bde9141abef6c9c9307168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 24/26] fix: the CTR iterator lives in the library's namespace

ItCTREncrypted was a class of the global namespace: a program with a class of
that name of its own silently got the library's member functions in it.
---
 goost/kuznyechik/StCTREncrypted.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index d77b3f2..211ed80 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -13,6 +13,9 @@
 using namespace std;
 using namespace goost::kuznyechik;
 
+namespace goost {
+namespace kuznyechik {
+
 class ItCTREncrypted final : public Iterator {
 public:
 	ItCTREncrypted(
@@ -32,6 +35,9 @@ private:
 	const shared_ptr<const Block> ctr;
 };
 
+}  // namespace kuznyechik
+}  // namespace goost
+
 ItCTREncrypted::ItCTREncrypted(
 		const shared_ptr<const Iterator> &iter,
 		const shared_ptr<const Key> &key,
-- 
2.43.0


From 54c247fde350c9c99e360ace725fd87f1f93b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 25/26] fix: a block may be made of memory that holds objects
 of any type

---
 goost/kuznyechik/BlkRaw.cpp | 18 ++++++++++++++----
 goost/magma/BlkRaw.cpp      | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/goost/kuznyechik/BlkRaw.cpp b/goost/kuznyechik/BlkRaw.cpp
index 4370b5e..bf4ab88 100644
--- a/goost/kuznyechik/BlkRaw.cpp
+++ b/goost/kuznyechik/BlkRaw.cpp
@@ -4,10 +4,23 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkRaw.h"
+#include <cstring>
 
 using namespace std;
 using namespace goost::kuznyechik;
 
+namespace {
+
+// The memory may hold objects of any type
+uint64_t word(const void *ptr, size_t index)
+{
+	uint64_t value;
+	memcpy(&value, static_cast<const uint8_t *>(ptr) + index * sizeof(value), sizeof(value));
+	return value;
+}
+
+}  // namespace
+
 BlkRaw::BlkRaw(uint64_t low, uint64_t high)
 	: low(low), high(high)
 {
@@ -24,10 +37,7 @@ BlkRaw::BlkRaw(const shared_ptr<const Block> &block)
 }
 
 BlkRaw::BlkRaw(const void * const ptr)
-	: BlkRaw(
-		reinterpret_cast<const uint64_t *>(ptr)[0],
-		reinterpret_cast<const uint64_t *>(ptr)[1]
-	)
+	: BlkRaw(word(ptr, 0), word(ptr, 1))
 {
 }
 
diff --git a/goost/magma/BlkRaw.cpp b/goost/magma/BlkRaw.cpp
index 39bbe7d..97e47af 100644
--- a/goost/magma/BlkRaw.cpp
+++ b/goost/magma/BlkRaw.cpp
@@ -4,12 +4,25 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkRaw.h"
+#include <cstring>
 #include <iomanip>
 #include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
 
+namespace {
+
+// The memory may hold objects of any type
+uint32_t word(const void *ptr, size_t index)
+{
+	uint32_t value;
+	memcpy(&value, static_cast<const uint8_t *>(ptr) + index * sizeof(value), sizeof(value));
+	return value;
+}
+
+}  // namespace
+
 BlkRaw::BlkRaw(uint32_t low, uint32_t high)
 	: low(low), high(high)
 {
@@ -40,10 +53,7 @@ BlkRaw::BlkRaw(const vector<uint8_t> &block)
 }
 
 BlkRaw::BlkRaw(const void *ptr)
-	: BlkRaw(
-		reinterpret_cast<const uint32_t *>(ptr)[0],
-		reinterpret_cast<const uint32_t *>(ptr)[1]
-	  )
+	: BlkRaw(word(ptr, 0), word(ptr, 1))
 {
 }
 
-- 
2.43.0


From fd4ed9cc74031fc600f7973e78325468fc243452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 26/26] fix: the Magma MAC of an empty message does not index
 an empty vector

---
 goost/magma/Imit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 71a99e6..90f7fe1 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -4,7 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "Imit.h"
-#include <cstring>
+#include <algorithm>
 #include <goost/SourceBlock.h>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
@@ -88,7 +88,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
-		memcpy(&v, &b[0], b.size());
+		copy(b.begin(), b.end(), reinterpret_cast<byte *>(&v));
 		block = make_shared<BlkXored>(block, make_shared<BlkRaw>(v));
 		if (b.size() < Block::size) {
 			break;
-- 
2.43.0

