From 64fe523c9d1d375fe022150889a3797047cf7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:28 +0000
Subject: [PATCH 01/58] fix: sub_from_q(0) is 0, not Q

The documented result is (Q - a) mod q; for zero the unreduced Q was returned.
---
 src/electionguard/group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..7901028 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -785,6 +785,10 @@ namespace electionguard
     unique_ptr<ElementModQ> sub_from_q(const ElementModQ &a)
     {
         uint64_t result[MAX_Q_LEN] = {};
+        // (Q - 0) mod q is zero
+        if (const_cast<ElementModQ &>(a) == ZERO_MOD_Q()) {
+            return make_unique<ElementModQ>(result, true);
+        }
         Bignum256::sub(const_cast<ElementModQ &>(Q()).get(), const_cast<ElementModQ &>(a).get(),
                        static_cast<uint64_t *>(result));
         // TODO: python version doesn't perform % Q on results,
-- 
2.43.0


From 25de3c6df1f5af407610240665b1106e21fe77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:28 +0000
Subject: [PATCH 02/58] fix: add_mod_p corrects an overflowing sum with the
 offset of P

When lhs + rhs reached 2^4096 the 4-word offset of Q was read as 64 words and added.
---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 7901028..e79e4ce 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -547,7 +547,7 @@ namespace electionguard
 
             } else {
                 Bignum4096::add(static_cast<uint64_t *>(addResult),
-                                const_cast<uint64_t *>(Q_ARRAY_INVERSE_OFFSET),
+                                const_cast<uint64_t *>(P_ARRAY_INVERSE_OFFSET),
                                 static_cast<uint64_t *>(addResult));
             }
         }
-- 
2.43.0


From 7f845c42e89515eef97112ece35c7d0f572fe846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:28 +0000
Subject: [PATCH 03/58] fix: rand_p draws the 512 bytes it reads

Only 256 bytes were drawn, so half of the value came from beyond the buffer.
---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index e79e4ce..c4d2ca4 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -798,7 +798,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(ByteSize::SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From 6f4b0e7e2122b11e86335731c46ebaf09c53657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:28 +0000
Subject: [PATCH 04/58] fix: pow_mod_p uses all bits of an exponent in Z_p

HACL takes the exponent width in bits, but the width in bytes was given, so bits above
512 of the exponent were ignored.
---
 src/electionguard/group.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index c4d2ca4..1fa170b 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -602,7 +602,8 @@ namespace electionguard
         }
 
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        CONTEXT_P().modExp(base.get(), MAX_P_SIZE * 8, exponent.get(),
+                           static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
@@ -624,7 +625,10 @@ namespace electionguard
         }
 
         // if none exists, execute the modular exponentiation directly
-        return pow_mod_p(base, *exponent.toElementModP());
+        uint64_t result[MAX_P_LEN] = {};
+        CONTEXT_P().modExp(base.get(), MAX_Q_SIZE * 8, exponent.get(),
+                           static_cast<uint64_t *>(result));
+        return make_unique<ElementModP>(result, true);
     }
 
     unique_ptr<ElementModP> g_pow_p(const ElementModP &exponent)
-- 
2.43.0


From 5fe525763a38db5a8ab97b4cfd734a97ecb09b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:28 +0000
Subject: [PATCH 05/58] fix: zero is within the documented bounds [0,P) and
 [0,Q)

isInBounds returned false for zero.
---
 src/electionguard/group.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 1fa170b..72aa2da 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -205,8 +205,7 @@ namespace electionguard
 
     bool ElementModP::isInBounds() const
     {
-        return (const_cast<ElementModP &>(ZERO_MOD_P()) < *this) &&
-               (const_cast<ElementModP &>(*this) < P());
+        return const_cast<ElementModP &>(*this) < P();
     }
     bool ElementModP::isValidResidue() const
     {
@@ -359,8 +358,7 @@ namespace electionguard
 
     bool ElementModQ::isInBounds() const
     {
-        return (const_cast<ElementModQ &>(ZERO_MOD_Q()) < *this) &&
-               (const_cast<ElementModQ &>(*this) < Q());
+        return const_cast<ElementModQ &>(*this) < Q();
     }
 
     vector<uint8_t> ElementModQ::toBytes() const
-- 
2.43.0


From fe78dc5341456768bf93e79ca1e398970ad3dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:48 +0000
Subject: [PATCH 06/58] fix: mod_p reduces the element only, not the memory
 after it

HACL reads 128 words where an element has 64, so the result was garbage.
---
 src/electionguard/group.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 72aa2da..0df6b21 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -557,8 +557,11 @@ namespace electionguard
 
     std::unique_ptr<ElementModP> mod_p(const ElementModP &element)
     {
+        // HACL reads a value of twice the size of the modulus
+        uint64_t value[MAX_P_LEN_DOUBLE] = {};
+        copy(element.get(), element.get() + MAX_P_LEN, static_cast<uint64_t *>(value));
         uint64_t modResult[MAX_P_LEN] = {};
-        CONTEXT_P().mod(element.get(), static_cast<uint64_t *>(modResult));
+        CONTEXT_P().mod(static_cast<uint64_t *>(value), static_cast<uint64_t *>(modResult));
         return make_unique<ElementModP>(modResult, true);
     }
 
-- 
2.43.0


From 097ed5153302bb6fada808545e535ad3f6fe7bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 07/58] fix: the hex representation of zero can be read back

toHex of a zero element is "00", but fromHex threw on any all-zero text.
---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..54d18d4 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -170,7 +170,12 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto first = hexString.find_first_not_of(LEADING_CHARS);
+        if (first == string::npos && hexString.find('0') != string::npos) {
+            // the representation of zero
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(first);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From ecfe847195484b8921513a2a5d602e138ff21d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 08/58] fix: text that is not hex is refused when creating an
 element

Texts such as "1G", "-1" or "0x1" were silently read as some other value.
---
 src/electionguard/convert.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 54d18d4..c4c81b9 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -53,8 +53,17 @@ namespace electionguard
         return static_cast<uint32_t>(size);
     }
 
+    /// stoi accepts signs, white space, prefixes and trailing characters, so check the digits first
+    inline void assert_hex_digits(const string &hexString)
+    {
+        if (hexString.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+            throw std::invalid_argument("the text contains characters that are not hex digits");
+        }
+    }
+
     inline void hex_to_bytes(const string &hex, uint8_t *bytesOut)
     {
+        assert_hex_digits(hex);
         const size_t baseHex = 16;
         for (size_t i(0); i < hex.size(); i += 2) {
             string byteString = hex.substr(i, 2);
@@ -66,6 +75,7 @@ namespace electionguard
 
     inline vector<uint8_t> hex_to_bytes(const string &hexString)
     {
+        assert_hex_digits(hexString);
         vector<uint8_t> bytes;
         const size_t baseHex = 16;
         for (size_t i = 0; i < hexString.size(); i += 2) {
-- 
2.43.0


From f0a37fad5cc4909a2e3d359da9972d6d7b769267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 09/58] fix: too many words are refused when creating an
 element

They were copied beyond the end of a stack array.
---
 src/electionguard/group.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 0df6b21..6246197 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -114,6 +114,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
+            if (elem.size() > MAX_P_LEN) {
+                throw out_of_range("Value for ElementModP is greater than allowed");
+            }
             uint64_t array[MAX_P_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
@@ -274,6 +277,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked)
         {
+            if (elem.size() > MAX_Q_LEN) {
+                throw out_of_range("Value for ElementModQ is greater than allowed");
+            }
             uint64_t array[MAX_Q_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum256::lessThan(const_cast<uint64_t *>(Q().get()),
-- 
2.43.0


From e7d582bab39f284a182915c527d8fb282cf495fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 10/58] fix: cloning an unchecked ElementModQ copies it

The checked constructor threw for values above Q, unlike the copy constructor.
---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 6246197..7680e87 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -417,7 +417,7 @@ namespace electionguard
 
     std::unique_ptr<ElementModQ> ElementModQ::clone() const
     {
-        return make_unique<ElementModQ>(pimpl->data);
+        return make_unique<ElementModQ>(pimpl->data, true);
     }
 
 #pragma endregion
-- 
2.43.0


From 13d0669a662aa26d1d8a9778fede6bf2bc14e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:06 +0000
Subject: [PATCH 11/58] fix: the collection of lookup tables is locked while it
 is searched and extended

Waiting for the semaphore released it again before the map was accessed, so that two
threads could modify the map at the same time.
---
 src/electionguard/lookup_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/lookup_table.hpp b/src/electionguard/lookup_table.hpp
index 00237a0..fd9aa95 100644
--- a/src/electionguard/lookup_table.hpp
+++ b/src/electionguard/lookup_table.hpp
@@ -166,14 +166,14 @@ namespace electionguard
         {
             LookupTableType *public_key_table = NULL;
             {
-                getInstance().task_lock.wait();
+                std::lock_guard<std::mutex> lock(getInstance().table_lock);
                 public_key_table = getInstance().getBaseLookupTable(key, base);
             }
             return public_key_table->pow_mod_p(exponent);
         }
 
       private:
-        AsyncSemaphore task_lock;
+        std::mutex table_lock;
         std::map<string, std::unique_ptr<LookupTableType>> key_map;
 
         LookupTableType *getBaseLookupTable(const string key, uint64_t (&base)[MAX_P_LEN])
-- 
2.43.0


From 78a8d3814bfbd959debe0dc2370cad370c5f3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:06 +0000
Subject: [PATCH 12/58] fix: the cached hex of a shared element is protected

toHex is a const member that threads call concurrently, e.g. on the generator, and it
wrote the cached string without synchronisation.
---
 src/electionguard/group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 7680e87..b4a562e 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -227,6 +228,9 @@ namespace electionguard
 
     string ElementModP::toHex() const
     {
+        // elements (such as the generator) are shared between threads
+        static std::mutex hexLock;
+        std::lock_guard<std::mutex> lock(hexLock);
         if (!pimpl->hexRepresentation.empty()) {
             return pimpl->hexRepresentation;
         }
-- 
2.43.0


From 3919c992b1e82fb0aec7d09953a77a12bd6035e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:06 +0000
Subject: [PATCH 13/58] fix: populate never exceeds the queue size and checks
 it under the lock

A call on a full queue added one more entry, and the loop condition read the queue
without holding the lock.
---
 src/electionguard/precompute_buffers.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c342092..73e7c3b 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -207,12 +207,13 @@ namespace electionguard
         // queue size in we could use that.
         // for now we just go through the loop once
         int iteration_count = 0;
-        do {
+        while (true) {
             // TODO - Can we tolerate not returning until we have finished
             // generating two triples and a quadruple?
             // If not we can get more elaborate with the populate_OK checking
             std::lock_guard<std::mutex> lock(queue_lock);
-            if (getInstance().populate_OK) {
+            if (getInstance().populate_OK &&
+                getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max) {
                 // generate two triples and a quadruple
                 //
                 // these constuctors will generate the precomputed values
@@ -244,7 +245,7 @@ namespace electionguard
             } else {
                 return;
             }
-        } while (getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max);
+        }
     }
 
     void PrecomputeBufferContext::stop_populate() { getInstance().populate_OK = false; }
-- 
2.43.0


From a6e6b1e9c73832503169cd0d086abba1d9f37e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 14/58] fix: the precompute flag and sizes are synchronised

stop_populate, get_max_queue_size and get_current_queue_size raced with populate.
---
 include/electionguard/precompute_buffers.hpp | 5 +++--
 src/electionguard/precompute_buffers.cpp     | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/electionguard/precompute_buffers.hpp b/include/electionguard/precompute_buffers.hpp
index 10b6c4c..2138fc6 100644
--- a/include/electionguard/precompute_buffers.hpp
+++ b/include/electionguard/precompute_buffers.hpp
@@ -4,6 +4,7 @@
 #include "electionguard/group.hpp"
 
 #include <array>
+#include <atomic>
 #include <cstdint>
 #include <electionguard/constants.h>
 #include <electionguard/export.h>
@@ -237,9 +238,9 @@ namespace electionguard
         static void empty_queues();
 
       private:
-        uint32_t max = DEFAULT_PRECOMPUTE_SIZE;
+        std::atomic<uint32_t> max = DEFAULT_PRECOMPUTE_SIZE;
         static std::mutex queue_lock;
-        bool populate_OK = false;
+        std::atomic<bool> populate_OK = false;
         std::queue<std::unique_ptr<Triple>> triple_queue;
         std::queue<std::unique_ptr<TwoTriplesAndAQuadruple>> twoTriplesAndAQuadruple_queue;
     };
diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index 73e7c3b..27d0488 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -254,6 +254,7 @@ namespace electionguard
 
     uint32_t PrecomputeBufferContext::get_current_queue_size()
     {
+        std::lock_guard<std::mutex> lock(queue_lock);
         return getInstance().twoTriplesAndAQuadruple_queue.size();
     }
 
-- 
2.43.0


From 22d93b657ae45db11970e2346124b6e4543e078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:36 +0000
Subject: [PATCH 15/58] fix: leading zero bytes of the extended data survive
 serialization

---
 src/electionguard/convert.hpp   | 11 +++++++++++
 src/electionguard/serialize.hpp | 10 +++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index c4c81b9..9fb1ce5 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -214,6 +214,17 @@ namespace electionguard
         return detectedFirstNonZeroBytes ? (stream.str()) : "00";
     }
 
+    /// two digits for every byte, for byte strings whose leading zeros are significant
+    inline string byte_string_to_hex(const vector<uint8_t> &bytes)
+    {
+        stringstream stream;
+        stream << hex << uppercase;
+        for (auto byte : bytes) {
+            stream << setw(2) << setfill('0') << static_cast<uint16_t>(byte);
+        }
+        return stream.str();
+    }
+
     template <typename T, size_t S> string bytes_to_hex(T (&data)[S])
     {
         vector<T> vec(begin(data), end(data));
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..1d88056 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1110,8 +1110,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", byte_string_to_hex(e->getData())},
+                      {"mac", byte_string_to_hex(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1180,14 +1180,10 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        hex_to_bytes(hashed_el_gamal_data), hex_to_bytes(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From 7513f879484578117a3c450d064b93b40d7cdb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:36 +0000
Subject: [PATCH 16/58] fix: leading zero bytes of a byte string count in its
 hash

---
 src/electionguard/group.cpp | 5 ++++-
 src/electionguard/hash.cpp  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index b4a562e..10473fa 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -848,7 +848,10 @@ namespace electionguard
         return add_mod_q(*random_q, ZERO_MOD_Q());
     }
 
-    string vector_uint8_t_to_hex(const vector<uint8_t> &bytes) { return bytes_to_hex(bytes); }
+    string vector_uint8_t_to_hex(const vector<uint8_t> &bytes)
+    {
+        return byte_string_to_hex(bytes);
+    }
 
 #pragma endregion
 
diff --git a/src/electionguard/hash.cpp b/src/electionguard/hash.cpp
index 8ef4930..facb604 100644
--- a/src/electionguard/hash.cpp
+++ b/src/electionguard/hash.cpp
@@ -239,6 +239,9 @@ namespace electionguard
             case VECTOR_UINT8_T: // vector<string>
             {
                 vector<uint8_t> temp = get<vector<uint8_t>>(a);
+                if (temp.empty()) {
+                    return null_string;
+                }
                 return vector_uint8_t_to_hex(temp);
             }
                 
-- 
2.43.0


From 294ac984b14a968e3aa452b738d6196207ea3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 17/58] fix: cloning a disjunctive proof copies its last
 commitment

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From 43a47d8704c69a8e35a7b4dcceb3d3b68cde670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 18/58] fix: copying a key pair leaves the original intact

---
 src/electionguard/elgamal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..9f57700 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -39,7 +39,8 @@ namespace electionguard
     // Lifecycle Methods
 
     ElGamalKeyPair::ElGamalKeyPair(const ElGamalKeyPair &other)
-        : pimpl(new Impl(move(*other.pimpl)))
+        : pimpl(new Impl(make_unique<ElementModQ>(*other.pimpl->secretKey),
+                         make_unique<ElementModP>(*other.pimpl->publicKey)))
     {
     }
 
-- 
2.43.0


From 795d3cf5703082872849144c2ff35055ddabd285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:44 +0000
Subject: [PATCH 19/58] fix: messages greater than one are not encrypted as
 zero

---
 src/electionguard/elgamal.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index 9f57700..bf79efd 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -222,10 +222,12 @@ namespace electionguard
         auto pad = g_pow_p(nonce);
         auto pubkey_pow_n = pow_mod_p(publicKey, nonce);
         unique_ptr<ElementModP> data = nullptr;
-        if (m == 1) {
+        if (m == 0) {
+            data = move(pubkey_pow_n);
+        } else if (m == 1) {
             data = mul_mod_p(G(), *pubkey_pow_n);
         } else {
-            data = move(pubkey_pow_n);
+            data = mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), *pubkey_pow_n);
         }
 
         Log::trace("Generated Encryption");
@@ -244,6 +246,10 @@ namespace electionguard
         if (m == 1) {
             unique_ptr<ElementModP> temp = mul_mod_p(G(), pubkey_to_rho);
             data = *temp;
+        } else if (m > 1) {
+            unique_ptr<ElementModP> temp =
+              mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), pubkey_to_rho);
+            data = *temp;
         }
 
         Log::trace("Generated Encryption with Precomputed Values");
-- 
2.43.0


From 6c220b39340223378b954354906d1f40b3766a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 20/58] fix: the approval vote variation has a name

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..d202ab3 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From e815768833213d6fd2e996a5fca02acb113638b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 21/58] fix: placeholders follow selections with large sequence
 orders

---
 src/electionguard/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index d202ab3..bc7d4cf 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1998,7 +1998,7 @@ namespace electionguard
 
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
-            uint32_t maxSequenceOrder = 0;
+            uint64_t maxSequenceOrder = 0;
             for (const auto &selection : contest.get().getSelections()) {
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
-- 
2.43.0


From ef4a820487b03a2c6384d9660be140282d7ccfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 22/58] fix: a contest is delivered once to a style that
 repeats a unit

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index bc7d4cf..ef0c802 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1946,6 +1946,7 @@ namespace electionguard
             for (const auto &gpUnitId : style->getGeopoliticalUnitIds()) {
                 if (reference->getElectoralDistrictId() == gpUnitId) {
                     contests.push_back(ref(*reference));
+                    break;
                 }
             }
         }
-- 
2.43.0


From 976444b9dc5fcba254b9d3ef80849c63a74b0acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 23/58] fix: copying a contest keeps its vote limit, optional
 titles and parties

---
 src/electionguard/manifest.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index ef0c802..1f96895 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1094,17 +1094,16 @@ namespace electionguard
                 _selections.push_back(make_unique<SelectionDescription>(*element));
             }
 
-            // TODO: handle optional values
-            if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
-            }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            auto _ballotTitle = ballotTitle == nullptr
+                                  ? nullptr
+                                  : make_unique<InternationalizedText>(*ballotTitle);
+            auto _ballotSubtitle = ballotSubtitle == nullptr
+                                     ? nullptr
+                                     : make_unique<InternationalizedText>(*ballotSubtitle);
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 7d67abeef0ea8ab3eafca8d64e7d72d30e663a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 24/58] fix: optional titles, name and contact of a manifest
 are hashed one by one

---
 src/electionguard/manifest.cpp | 41 +++++++++++++++-------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 1f96895..c5cbdcf 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1114,18 +1114,16 @@ namespace electionguard
                 selectionRefs.push_back(ref<CryptoHashable>(*selection));
             }
 
-            // TODO: handle optional values
+            CryptoHashableType title = nullptr;
             if (ballotTitle != nullptr) {
-                auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                        getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
-                Log::trace("ContestDescription", hash.get());
-                return hash;
+                title = ballotTitle.get();
+            }
+            CryptoHashableType subtitle = nullptr;
+            if (ballotSubtitle != nullptr) {
+                subtitle = ballotSubtitle.get();
             }
             auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                    getVoteVariationTypeString(voteVariation), nullptr, nullptr,
+                                    getVoteVariationTypeString(voteVariation), title, subtitle,
                                     name, numberElected, votesAllowed, selectionRefs});
             Log::trace("ContestDescription", hash.get());
             return hash;
@@ -1523,21 +1521,18 @@ namespace electionguard
                 ballotStyleRefs.push_back(ref<CryptoHashable>(*element));
             }
 
-            // TODO: handle other optional cases
-            if (name == nullptr) {
-                auto hash = hash_elems(
-                  {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
-                   timePointToIsoString(endDate), nullptr, nullptr, geopoliticalUnitRefs, partyRefs,
-                   contestRefs, ballotStyleRefs});
-                Log::trace("Manifest:: NO NAME!", hash->toHex());
-                return hash;
+            CryptoHashableType nameRef = nullptr;
+            if (name != nullptr) {
+                nameRef = name.get();
             }
-
-            auto hash =
-              hash_elems({electionScopeId, getElectionTypeString(type),
-                          timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+            CryptoHashableType contactRef = nullptr;
+            if (contactInformation != nullptr) {
+                contactRef = contactInformation.get();
+            }
+            auto hash = hash_elems({electionScopeId, getElectionTypeString(type),
+                                    timePointToIsoString(startDate), timePointToIsoString(endDate),
+                                    nameRef, contactRef, geopoliticalUnitRefs, partyRefs,
+                                    contestRefs, ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
-- 
2.43.0


From 431b276a30e25d447285ce87c176c70263555d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:04 +0000
Subject: [PATCH 25/58] fix: a party without a name hashes alike however it was
 made

---
 src/electionguard/manifest.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index c5cbdcf..df015a2 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -725,9 +725,12 @@ namespace electionguard
 
         explicit Impl(const string &objectId, unique_ptr<InternationalizedText> name,
                       const string &abbreviation, const string &color, const string &logoUri)
-            : name(move(name)), abbreviation(abbreviation), color(color), logoUri(logoUri)
+            : abbreviation(abbreviation), color(color), logoUri(logoUri)
         {
-            this->object_id = objectId;
+            init(objectId);
+            if (name != nullptr) {
+                this->name = move(name);
+            }
         }
 
         [[nodiscard]] unique_ptr<Party::Impl> clone() const
-- 
2.43.0


From 8e26d3fddb3f61676953106836bf7f8a3bd034e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:04 +0000
Subject: [PATCH 26/58] fix: empty contact information survives serialization

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 1d88056..ca78343 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -79,7 +79,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
-- 
2.43.0


From 707919ba6347f508abd6432f6a10a81c019bdc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:04 +0000
Subject: [PATCH 27/58] fix: a vote limit of zero survives serialization

---
 src/electionguard/serialize.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index ca78343..ea382fa 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -422,9 +422,7 @@ namespace electionguard
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
 
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
 
         serialized["name"] = serializable.getName();
 
-- 
2.43.0


From ade4f9e5907957a9ba94ddbc93080c2b85b85dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:04 +0000
Subject: [PATCH 28/58] fix: name and contact of a manifest are read
 independently

---
 src/electionguard/serialize.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index ea382fa..dc56e98 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -548,22 +548,19 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
-                if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
-                    return make_unique<electionguard::Manifest>(
-                      electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
-                      timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                      move(candidates), move(contests), move(ballotStyles), move(name),
-                      move(contactInformation));
-                }
+                auto name = j.contains("name") && !j["name"].is_null()
+                              ? internationalizedTextFromJson(j["name"])
+                              : nullptr;
+                auto contactInformation =
+                  j.contains("contact_information") && !j["contact_information"].is_null()
+                    ? contactInformationFromJson(j["contact_information"])
+                    : nullptr;
+
                 return make_unique<electionguard::Manifest>(
                   electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                   timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                  move(candidates), move(contests), move(ballotStyles));
+                  move(candidates), move(contests), move(ballotStyles), move(name),
+                  move(contactInformation));
             }
 
           public:
-- 
2.43.0


From dbae0937041725baff9d629277c14c7575ecf922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:04 +0000
Subject: [PATCH 29/58] fix: titles and vote limits of an internal manifest
 survive serialization

---
 src/electionguard/serialize.hpp | 46 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index dc56e98..08e79cf 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -624,14 +624,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -671,28 +670,21 @@ namespace electionguard
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
-                    if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
-                        auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
-
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, votes_allowed,
-                            name, move(ballotTitle), move(ballotSubtitle), move(selections),
-                            move(placeholders)));
-
-                    } else {
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, name,
-                            move(selections), move(placeholders)));
-                    }
+                    auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
+                    auto ballotTitle =
+                      contest.contains("ballot_title") && !contest["ballot_title"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_title"])
+                        : nullptr;
+                    auto ballotSubtitle =
+                      contest.contains("ballot_subtitle") && !contest["ballot_subtitle"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_subtitle"])
+                        : nullptr;
+
+                    contestDescriptions.push_back(make_unique<ContestDescriptionWithPlaceholders>(
+                      contest_object_id, electoral_district_id, contest_sequence_order,
+                      getVoteVariationType(vote_variation), number_elected, votes_allowed, name,
+                      move(ballotTitle), move(ballotSubtitle), move(selections),
+                      move(placeholders)));
                 }
 
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
-- 
2.43.0


From e0db8b9c3acd9885cb79dd3d9f19c0ff66e4ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:25 +0000
Subject: [PATCH 30/58] fix: serialization keeps the order in which contests
 and selections are hashed

---
 include/electionguard/manifest.hpp | 12 ++++++++++++
 src/electionguard/manifest.cpp     | 14 ++++++++++++--
 src/electionguard/serialize.hpp    |  8 +++++---
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 733b693..1c08ced 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -725,6 +725,12 @@ namespace electionguard
         /// </Summary>
         std::vector<std::reference_wrapper<SelectionDescription>> getSelections() const;
 
+        /// <Summary>
+        /// The collection of selections in the order in which they were given,
+        /// which is the order in which they are hashed.
+        /// </Summary>
+        std::vector<std::reference_wrapper<SelectionDescription>> getSelectionsAsGiven() const;
+
         /// <Summary>
         /// A hash representation of the object
         /// </Summary>
@@ -897,6 +903,12 @@ namespace electionguard
         /// </Summary>
         std::vector<std::reference_wrapper<ContestDescription>> getContests() const;
 
+        /// <Summary>
+        /// The collection of contests in the order in which they were given,
+        /// which is the order in which they are hashed.
+        /// </Summary>
+        std::vector<std::reference_wrapper<ContestDescription>> getContestsAsGiven() const;
+
         /// <Summary>
         /// Collection of ballot styles for this election.
         /// </Summary>
diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index df015a2..747a064 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1217,14 +1217,19 @@ namespace electionguard
         return pimpl->ballotSubtitle.get();
     }
 
-    vector<reference_wrapper<SelectionDescription>> ContestDescription::getSelections() const
+    vector<reference_wrapper<SelectionDescription>> ContestDescription::getSelectionsAsGiven() const
     {
         vector<reference_wrapper<SelectionDescription>> selections;
         selections.reserve(pimpl->selections.size());
         for (const auto &selection : pimpl->selections) {
             selections.push_back(ref(*selection));
         }
+        return selections;
+    }
 
+    vector<reference_wrapper<SelectionDescription>> ContestDescription::getSelections() const
+    {
+        auto selections = getSelectionsAsGiven();
         sort(selections.begin(), selections.end(),
              [](const reference_wrapper<SelectionDescription> left,
                 const reference_wrapper<SelectionDescription> right) {
@@ -1616,14 +1621,19 @@ namespace electionguard
         return references;
     }
 
-    vector<reference_wrapper<ContestDescription>> Manifest::getContests() const
+    vector<reference_wrapper<ContestDescription>> Manifest::getContestsAsGiven() const
     {
         vector<reference_wrapper<ContestDescription>> references;
         references.reserve(pimpl->contests.size());
         for (auto &reference : pimpl->contests) {
             references.push_back(ref(*reference));
         }
+        return references;
+    }
 
+    vector<reference_wrapper<ContestDescription>> Manifest::getContests() const
+    {
+        auto references = getContestsAsGiven();
         sort(references.begin(), references.end(),
              [](const reference_wrapper<ContestDescription> left,
                 const reference_wrapper<ContestDescription> right) {
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 08e79cf..3caff62 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -436,7 +436,8 @@ namespace electionguard
               internationalizedTextToJson(*serializable.getBallotSubtitle());
         }
 
-        serialized["ballot_selections"] = selectionDescriptionsToJson(serializable.getSelections());
+        serialized["ballot_selections"] =
+          selectionDescriptionsToJson(serializable.getSelectionsAsGiven());
 
         return serialized;
     }
@@ -513,7 +514,7 @@ namespace electionguard
                 json candidates = candidatesToJson(serializable.getCandidates());
                 serialized.push_back({"candidates", candidates});
 
-                json contests = contestDescriptionsToJson(serializable.getContests());
+                json contests = contestDescriptionsToJson(serializable.getContestsAsGiven());
                 serialized.push_back({"contests", contests});
 
                 json ballotStyles = ballotStylesToJson(serializable.getBallotStyles());
@@ -607,7 +608,8 @@ namespace electionguard
                 // Contests
                 json contests;
                 for (const auto &contest : serializable.getContests()) {
-                    auto selections = selectionDescriptionsToJson(contest.get().getSelections());
+                    auto selections =
+                      selectionDescriptionsToJson(contest.get().getSelectionsAsGiven());
                     auto placeholders =
                       selectionDescriptionsToJson(contest.get().getPlaceholders());
 
-- 
2.43.0


From 54f08e2dfbc0c1c5e5ed0c4692e058cd6843c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:23 +0000
Subject: [PATCH 31/58] fix: contact information without a name can be made and
 read back

---
 include/electionguard/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 1c08ced..0eb2e33 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -252,14 +252,14 @@ namespace electionguard
         ContactInformation(ContactInformation &&other);
         explicit ContactInformation(std::string name);
         explicit ContactInformation(std::vector<std::string> addressLine,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> email,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         ~ContactInformation();
 
         ContactInformation &operator=(ContactInformation other);
-- 
2.43.0


From 40279f67cf0e2b5d4b11018222db5984bde39225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 32/58] fix: ballots made from a given nonce do not use
 precomputed values

---
 include/electionguard/encrypt.hpp |  8 +++++---
 src/electionguard/encrypt.cpp     | 33 +++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/electionguard/encrypt.hpp b/include/electionguard/encrypt.hpp
index ee072f4..48e496c 100644
--- a/include/electionguard/encrypt.hpp
+++ b/include/electionguard/encrypt.hpp
@@ -129,7 +129,8 @@ namespace electionguard
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder = false, bool shouldVerifyProofs = true);
+                     bool isPlaceholder = false, bool shouldVerifyProofs = true,
+                     bool usePrecomputedValues = true);
 
     /// <summary>
     /// Gets overvote and write in information from the selections in a contest
@@ -169,7 +170,8 @@ namespace electionguard
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true);
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true,
+                   bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt the contests of a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -192,7 +194,7 @@ namespace electionguard
     EG_API std::vector<std::unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs = true);
+                    bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..81327e9 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -261,7 +261,8 @@ namespace electionguard
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */)
+                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */,
+                     bool usePrecomputedValues /* = true */)
     {
         unique_ptr<CiphertextBallotSelection> encrypted = NULL;
         unique_ptr<ElGamalCiphertext> ciphertext;
@@ -284,7 +285,9 @@ namespace electionguard
 
         // this method runs off to look in the precomputed values buffer and if
         // it finds what it needs then the returned class will contain those values
-        precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        if (usePrecomputedValues) {
+            precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        }
 
         // check if we found the precomputed values needed
         if (precomputedTwoTriplesAndAQuad != nullptr) {
@@ -408,7 +411,8 @@ namespace electionguard
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */)
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */,
+                   bool usePrecomputedValues /* = true */)
 
     {
         // Validate Input
@@ -474,7 +478,8 @@ namespace electionguard
 
                 encryptedSelections.push_back(encryptSelection(
                   *selection_ptr, selectionDescription.get(), *elgamalPublicKey_ptr,
-                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs));
+                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs,
+                  usePrecomputedValues));
             } else {
                 // Should never happen since the contest is normalized by emplaceMissingValues
                 throw runtime_error("encryptedContest:: Error constructing encrypted selection");
@@ -502,7 +507,8 @@ namespace electionguard
             auto placeholderSelection = selectionFrom(placeholder, true, selectPlaceholder);
             encryptedSelections.push_back(encryptSelection(
               *placeholderSelection, placeholder, *elgamalPublicKey_ptr,
-              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs));
+              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs,
+              usePrecomputedValues));
         }
 
         // Derive the extendedDataNonce from the selection nonce and a constant
@@ -552,7 +558,8 @@ namespace electionguard
     vector<unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs /* = true */)
+                    bool shouldVerifyProofs /* = true */,
+                    bool usePrecomputedValues /* = true */)
     {
         auto *style = internalManifest.getBallotStyle(ballot.getStyleId());
         vector<unique_ptr<CiphertextBallotContest>> encryptedContests;
@@ -567,7 +574,7 @@ namespace electionguard
                     auto encrypted = encryptContest(
                       contest.get(), internalManifest, description.get(),
                       *context.getElGamalPublicKey(), *context.getCryptoExtendedBaseHash(),
-                      nonceSeed, shouldVerifyProofs);
+                      nonceSeed, shouldVerifyProofs, usePrecomputedValues);
 
                     encryptedContests.push_back(move(encrypted));
                     break;
@@ -596,6 +603,10 @@ namespace electionguard
             throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
         }
 
+        // precomputed values have nonces of their own, so they cannot be used
+        // for a ballot that has to be reproducible from the given nonce
+        bool usePrecomputedValues = nonce == nullptr;
+
         // Generate a random seed nonce to use for the contest and selection nonce's on the ballot
         if (nonce == nullptr) {
             nonce = rand_q();
@@ -612,7 +623,8 @@ namespace electionguard
 
         // encrypt contests
         auto encryptedContests =
-          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs);
+          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs,
+                          usePrecomputedValues);
 
         // Get the system time
         if (timestamp == 0) {
@@ -653,6 +665,11 @@ namespace electionguard
                          uint64_t timestamp /* = 0 */, bool shouldVerifyProofs /* = true*/)
     {
         auto normalized = emplaceMissingValues(ballot, manifest);
+
+        // a compact ballot is expanded from its nonce
+        if (nonceSeed == nullptr) {
+            nonceSeed = rand_q();
+        }
         auto ciphertext = encryptBallot(*normalized, manifest, context, ballotCodeSeed,
                                         move(nonceSeed), timestamp, shouldVerifyProofs);
         return CompactCiphertextBallot::make(*normalized, *ciphertext);
-- 
2.43.0


From 7aab80f356fd458c28b88b8ae0df4e4962cc131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 33/58] fix: compact encryption refuses a ballot of an unknown
 style

---
 src/electionguard/encrypt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 81327e9..fdfd577 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -233,6 +233,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
-- 
2.43.0


From 05e55696696180aef7ea896c4f54eeda247d7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 34/58] fix: the overvote record lists every selection the
 voter marked

---
 src/electionguard/encrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index fdfd577..0584207 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -358,7 +358,7 @@ namespace electionguard
             // the number of selections should be short, the number of ballot selections
             // and candidates will be longer but shouldn't be too long
             for (const auto &selection : selections) {
-                if (selection.get().getVote() == 1) {
+                if (selection.get().getVote() >= 1) {
                     errorData.push_back(selection.get().getObjectId());
                 }
             }
@@ -380,7 +380,7 @@ namespace electionguard
         // the number of selections should be short, the number of ballot selections
         // and candidates will be longer but shouldn't be too long
         for (const auto &selection : selections) {
-            if (selection.get().getVote() == 1) {
+            if (selection.get().getVote() >= 1) {
                 for (const auto ballotSelection : ballotSelections) {
                     if (selection.get().getObjectId() == ballotSelection.get().getObjectId()) {
                         for (const auto &candidate : candidates) {
-- 
2.43.0


From 2759242bf71ee591a76541a6467d8a6b10f77f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 35/58] fix: write-ins of a compact ballot are read back as
 they were

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3caff62..905d779 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1007,11 +1007,11 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From 4f10655510409d77554a2c111b8b37eedcbb2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 36/58] fix: ballots without nonces, proofs or extended data
 can be copied

---
 src/electionguard/ballot.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..99bd156 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -173,9 +173,10 @@ namespace electionguard
         {
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
             auto _ciphertext = make_unique<ElGamalCiphertext>(*ciphertext);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<DisjunctiveChaumPedersenProof>(*proof);
+            auto _proof =
+              proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr;
             auto _extendedData =
               extendedData != nullptr ? make_unique<ElGamalCiphertext>(*extendedData) : nullptr;
 
@@ -550,11 +551,14 @@ namespace electionguard
             }
 
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _accumulation = make_unique<ElGamalCiphertext>(*ciphertextAccumulation);
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<ConstantChaumPedersenProof>(*proof);
-            auto _hashedElGamal = make_unique<HashedElGamalCiphertext>(*hashedElGamal);
+            auto _proof =
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr;
+            auto _hashedElGamal = hashedElGamal != nullptr
+                                    ? make_unique<HashedElGamalCiphertext>(*hashedElGamal)
+                                    : nullptr;
 
             return make_unique<CiphertextBallotContest::Impl>(
               object_id, sequenceOrder, move(_descriptionHash), move(_selections), move(_nonce),
@@ -632,7 +636,7 @@ namespace electionguard
 
     unique_ptr<HashedElGamalCiphertext> CiphertextBallotContest::getHashedElGamalCiphertext() const
     {
-        return pimpl->hashedElGamal.get()->clone();
+        return pimpl->hashedElGamal != nullptr ? pimpl->hashedElGamal->clone() : nullptr;
     }
 
     // Interface Overrides
@@ -930,7 +934,7 @@ namespace electionguard
             auto _manifestHash = make_unique<ElementModQ>(*manifestHash);
             auto _ballotCodeSeed = make_unique<ElementModQ>(*ballotCodeSeed);
             auto _ballotCode = make_unique<ElementModQ>(*ballotCode);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
             return make_unique<CiphertextBallot::Impl>(
               object_id, styleId, move(_manifestHash), move(_ballotCodeSeed), move(_contests),
-- 
2.43.0


From da179070b2c47785a1156a18bb8a4009da8a5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 37/58] fix: a contest without a proof is invalid

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 99bd156..ea57646 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -744,6 +744,7 @@ namespace electionguard
         }
 
         bool valid_proof =
+          proof_exists &&
           pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
-- 
2.43.0


From c3ce01c83d1ae586858194e516fa46160b836a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 38/58] fix: a ballot made of contests in any order verifies

---
 src/electionguard/ballot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index ea57646..6dc86ab 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1029,6 +1029,13 @@ namespace electionguard
             contestsRefs.push_back(ref(*contest));
         }
 
+        // the hash covers the contests in sequence order, as it does when it is verified
+        sort(contestsRefs.begin(), contestsRefs.end(),
+             [](const reference_wrapper<CiphertextBallotContest> left,
+                const reference_wrapper<CiphertextBallotContest> right) {
+                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+             });
+
         auto cryptoHash = makeCryptoHash(objectId, contestsRefs, manifestHash);
         auto ballotTimestamp = timestamp == 0 ? getSystemTimestamp() : timestamp;
         if (!ballotCodeSeed) {
-- 
2.43.0


From 060a991921d06fca57a9f8eebb327b01023faf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:43 +0000
Subject: [PATCH 39/58] fix: every proof of a ballot counts even if identifiers
 repeat

---
 src/electionguard/ballot.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 6dc86ab..cb9205c 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1084,16 +1084,18 @@ namespace electionguard
         }
 
         // Check the proofs on the ballot
-        unordered_map<string, bool> validProofs;
+        vector<std::pair<string, bool>> validProofs;
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
                 string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
-                  *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                validProofs.emplace_back(
+                  key, selection.get().isValidEncryption(*selection.get().getDescriptionHash(),
+                                                         elgamalPublicKey, cryptoExtendedBaseHash));
             }
             string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
-              *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+            validProofs.emplace_back(
+              key, contest.get().isValidEncryption(*contest.get().getDescriptionHash(),
+                                                   elgamalPublicKey, cryptoExtendedBaseHash));
         }
 
         bool isValid = true;
-- 
2.43.0


From a7a08182b3479c5f45db97ccd5653413c49849aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 40/58] fix: record and contest proof of a ballot made from a
 given nonce do not use precomputed values

---
 include/electionguard/ballot.hpp         | 3 ++-
 include/electionguard/chaum_pedersen.hpp | 3 ++-
 include/electionguard/elgamal.hpp        | 3 ++-
 src/electionguard/ballot.cpp             | 6 ++++--
 src/electionguard/chaum_pedersen.cpp     | 6 ++++--
 src/electionguard/elgamal.cpp            | 6 ++++--
 src/electionguard/encrypt.cpp            | 4 ++--
 7 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/electionguard/ballot.hpp b/include/electionguard/ballot.hpp
index a25a852..0db4bee 100644
--- a/include/electionguard/ballot.hpp
+++ b/include/electionguard/ballot.hpp
@@ -497,7 +497,8 @@ namespace electionguard
              std::unique_ptr<ElementModQ> nonce = nullptr,
              std::unique_ptr<ElementModQ> cryptoHash = nullptr,
              std::unique_ptr<ConstantChaumPedersenProof> proof = nullptr,
-             std::unique_ptr<HashedElGamalCiphertext> hashedElGamal = nullptr);
+             std::unique_ptr<HashedElGamalCiphertext> hashedElGamal = nullptr,
+             bool usePrecomputedValues = true);
 
         /// <summary>
         /// An aggregate nonce for the contest composed of the nonces of the selections.
diff --git a/include/electionguard/chaum_pedersen.hpp b/include/electionguard/chaum_pedersen.hpp
index 07ebb30..59983a3 100644
--- a/include/electionguard/chaum_pedersen.hpp
+++ b/include/electionguard/chaum_pedersen.hpp
@@ -242,7 +242,8 @@ namespace electionguard
         /// </Summary>
         static std::unique_ptr<ConstantChaumPedersenProof>
         make(const ElGamalCiphertext &message, const ElementModQ &r, const ElementModP &k,
-             const ElementModQ &seed, const ElementModQ &hash_header, uint64_t constant);
+             const ElementModQ &seed, const ElementModQ &hash_header, uint64_t constant,
+             bool usePrecomputedValues = true);
 
         /// <Summary>
         /// Validates a `ConstantChaumPedersenProof`
diff --git a/include/electionguard/elgamal.hpp b/include/electionguard/elgamal.hpp
index 251e81c..26fd7be 100644
--- a/include/electionguard/elgamal.hpp
+++ b/include/electionguard/elgamal.hpp
@@ -269,7 +269,8 @@ namespace electionguard
     EG_API std::unique_ptr<HashedElGamalCiphertext>
     hashedElgamalEncrypt(std::vector<uint8_t> plaintext, const ElementModQ &nonce,
                          const ElementModP &publicKey, const ElementModQ &descriptionHash,
-                         padded_data_size_t max_len, bool allow_truncation);
+                         padded_data_size_t max_len, bool allow_truncation,
+                         bool usePrecomputedValues = true);
 
 } // namespace electionguard
 
diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index cb9205c..fcdd75d 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -656,7 +656,8 @@ namespace electionguard
       uint64_t numberElected, unique_ptr<ElementModQ> nonce /* = nullptr */,
       unique_ptr<ElementModQ> cryptoHash /* = nullptr */,
       unique_ptr<ConstantChaumPedersenProof> proof /* = nullptr */,
-      unique_ptr<HashedElGamalCiphertext> hashedElGamal /*nullptr */)
+      unique_ptr<HashedElGamalCiphertext> hashedElGamal /*nullptr */,
+      bool usePrecomputedValues /* = true */)
     {
         vector<reference_wrapper<CiphertextBallotSelection>> selectionReferences;
         selectionReferences.reserve(selections.size());
@@ -680,7 +681,8 @@ namespace electionguard
             auto aggregate = aggregateNonce(selectionReferences);
             auto owned_proof =
               ConstantChaumPedersenProof::make(*accumulation, *aggregate, elgamalPublicKey,
-                                               proofSeed, cryptoExtendedBaseHash, numberElected);
+                                               proofSeed, cryptoExtendedBaseHash, numberElected,
+                                               usePrecomputedValues);
             proof = move(owned_proof);
         }
 
diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 61e4997..074089d 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -575,7 +575,8 @@ namespace electionguard
     unique_ptr<ConstantChaumPedersenProof>
     ConstantChaumPedersenProof::make(const ElGamalCiphertext &message, const ElementModQ &r,
                                      const ElementModP &k, const ElementModQ &seed,
-                                     const ElementModQ &hash_header, uint64_t constant)
+                                     const ElementModQ &hash_header, uint64_t constant,
+                                     bool usePrecomputedValues /* = true */)
     {
         Log::trace("ConstantChaumPedersenProof:: making proof");
         auto *alpha = message.getPad();
@@ -589,7 +590,8 @@ namespace electionguard
         unique_ptr<ElementModP> a; //𝑔^𝑢 mod 𝑝
         unique_ptr<ElementModP> b; // 𝐾^𝑢 mod 𝑝
         // check if the are precompute values rather than doing the exponentiations here
-        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple();
+        unique_ptr<Triple> triple =
+          usePrecomputedValues ? PrecomputeBufferContext::getTriple() : nullptr;
         if (triple != nullptr) {
             u = triple->get_exp();
             a = triple->get_g_to_exp();
diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index bf79efd..f5e64fb 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -453,7 +453,8 @@ namespace electionguard
     unique_ptr<HashedElGamalCiphertext>
     hashedElgamalEncrypt(std::vector<uint8_t> message, const ElementModQ &nonce,
                          const ElementModP &publicKey, const ElementModQ &encryption_seed,
-                         padded_data_size_t max_len, bool allow_truncation)
+                         padded_data_size_t max_len, bool allow_truncation,
+                         bool usePrecomputedValues /* = true */)
     {
         vector<uint8_t> ciphertext;
         vector<uint8_t> plaintext_on_boundary;
@@ -514,7 +515,8 @@ namespace electionguard
         unique_ptr<ElementModP> g_to_r = nullptr;
         unique_ptr<ElementModP> publicKey_to_r = nullptr;
         // check if the are precompute values rather than doing the exponentiations here
-        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple();
+        unique_ptr<Triple> triple =
+          usePrecomputedValues ? PrecomputeBufferContext::getTriple() : nullptr;
         if (triple != nullptr) {
             g_to_r = triple->get_g_to_exp();
             publicKey_to_r = triple->get_pubkey_to_exp();
diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 0584207..add5b6b 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -524,7 +524,7 @@ namespace electionguard
         // Perform HashedElGamalCiphertext calculation
         unique_ptr<HashedElGamalCiphertext> hashedElGamal =
           hashedElgamalEncrypt(extendedData_plaintext, *extendedDataNonce, elgamalPublicKey,
-                               cryptoExtendedBaseHash, BYTES_512, true);
+                               cryptoExtendedBaseHash, BYTES_512, true, usePrecomputedValues);
 
         // TODO: ISSUE #33: support other cases such as cumulative voting
         // (individual selections being an encryption of > 1)
@@ -538,7 +538,7 @@ namespace electionguard
           contest.getObjectId(), description.getSequenceOrder(), *descriptionHash,
           move(encryptedSelections), elgamalPublicKey, cryptoExtendedBaseHash, *chaumPedersenNonce,
           description.getNumberElected(), sharedNonce->clone(), nullptr, nullptr,
-          move(hashedElGamal));
+          move(hashedElGamal), usePrecomputedValues);
 
         if (encryptedContest == nullptr || encryptedContest->getProof() == nullptr) {
             throw runtime_error("encryptedContest:: Error constructing encrypted constest");
-- 
2.43.0


From 05615d9eef10f9a77ecdf5a498887304975900a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:45 +0000
Subject: [PATCH 41/58] fix: manifest without a required field is refused
 instead of aborting

---
 src/electionguard/serialize.hpp | 76 ++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 905d779..24d489b 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -40,8 +40,8 @@ namespace electionguard
 
     static unique_ptr<AnnotatedString> annotatedStringFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto annotation = j["annotation"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto annotation = j.at("annotation").get<string>();
         return make_unique<AnnotatedString>(annotation, value);
     }
 
@@ -52,8 +52,8 @@ namespace electionguard
 
     static unique_ptr<Language> languageFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto language = j["language"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto language = j.at("language").get<string>();
         return make_unique<Language>(value, language);
     }
 
@@ -70,7 +70,7 @@ namespace electionguard
     {
         vector<unique_ptr<Language>> text;
         if (j.contains("text") && !j["text"].is_null()) {
-            for (const auto &i : j["text"]) {
+            for (const auto &i : j.at("text")) {
                 text.push_back(languageFromJson(i));
             }
         }
@@ -115,28 +115,28 @@ namespace electionguard
     {
         vector<string> addressLine;
         if (j.contains("address_line") && !j["address_line"].is_null()) {
-            for (const auto &i : j["address_line"]) {
+            for (const auto &i : j.at("address_line")) {
                 addressLine.push_back(i.get<string>());
             }
         }
 
         vector<unique_ptr<AnnotatedString>> email;
         if (j.contains("email") && !j["email"].is_null()) {
-            for (const auto &i : j["email"]) {
+            for (const auto &i : j.at("email")) {
                 email.push_back(annotatedStringFromJson(i));
             }
         }
 
         vector<unique_ptr<AnnotatedString>> phone;
         if (j.contains("phone") && !j["phone"].is_null()) {
-            for (const auto &i : j["phone"]) {
+            for (const auto &i : j.at("phone")) {
                 phone.push_back(annotatedStringFromJson(i));
             }
         }
 
         if (j.contains("name") && !j["name"].is_null()) {
             return make_unique<ContactInformation>(move(addressLine), move(email), move(phone),
-                                                   j["name"].get<string>());
+                                                   j.at("name").get<string>());
         }
         return make_unique<ContactInformation>(move(addressLine), move(email), move(phone));
     }
@@ -160,12 +160,12 @@ namespace electionguard
     {
         if (j.contains("contact_information") && !j["contact_information"].is_null()) {
             return make_unique<GeopoliticalUnit>(
-              j["object_id"].get<string>(), j["name"].get<string>(),
-              getReportingUnitType(j["type"].get<string>()),
-              contactInformationFromJson(j["contact_information"]));
+              j.at("object_id").get<string>(), j.at("name").get<string>(),
+              getReportingUnitType(j.at("type").get<string>()),
+              contactInformationFromJson(j.at("contact_information")));
         }
-        return make_unique<GeopoliticalUnit>(j["object_id"].get<string>(), j["name"].get<string>(),
-                                             getReportingUnitType(j["type"].get<string>()));
+        return make_unique<GeopoliticalUnit>(j.at("object_id").get<string>(), j.at("name").get<string>(),
+                                             getReportingUnitType(j.at("type").get<string>()));
     }
 
     static json
@@ -218,19 +218,19 @@ namespace electionguard
         string color;
         string logo_uri;
         if (j.contains("abbreviation") && !j["abbreviation"].is_null()) {
-            abbreviation = j["abbreviation"].get<string>();
+            abbreviation = j.at("abbreviation").get<string>();
         }
         if (j.contains("color") && !j["color"].is_null()) {
-            color = j["color"].get<string>();
+            color = j.at("color").get<string>();
         }
         if (j.contains("logo_uri") && !j["logo_uri"].is_null()) {
-            logo_uri = j["logo_uri"].get<string>();
+            logo_uri = j.at("logo_uri").get<string>();
         }
         auto name = j.contains("name") && !j["name"].is_null()
-                      ? internationalizedTextFromJson(j["name"])
+                      ? internationalizedTextFromJson(j.at("name"))
                       : internationalizedTextFromJson(json("{}"));
 
-        return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
+        return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
     }
 
@@ -279,12 +279,12 @@ namespace electionguard
 
     static unique_ptr<Candidate> candidateFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
+        auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
-                      ? internationalizedTextFromJson(j["name"])
+                      ? internationalizedTextFromJson(j.at("name"))
                       : internationalizedTextFromJson("{}");
         bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
-                           ? j["is_write_in"].get<bool>()
+                           ? j.at("is_write_in").get<bool>()
                            : false;
         auto partyId =
           j.contains("party_id") && !j["party_id"].is_null() ? j["party_id"].get<string>() : "";
@@ -343,20 +343,20 @@ namespace electionguard
     static unique_ptr<BallotStyle> ballotStyleFromJson(const json &j)
     {
         vector<string> gpUnitIds;
-        for (const auto &element : j["geopolitical_unit_ids"]) {
+        for (const auto &element : j.at("geopolitical_unit_ids")) {
             gpUnitIds.push_back(element);
         }
 
         vector<string> partyIds;
         if (j.contains("party_ids") && !j["party_ids"].is_null()) {
-            for (const auto &element : j["party_ids"]) {
+            for (const auto &element : j.at("party_ids")) {
                 partyIds.push_back(element);
             }
         }
 
         auto imageUri =
           j.contains("image_uri") && !j["image_uri"].is_null() ? j["image_uri"].get<string>() : "";
-        return make_unique<BallotStyle>(j["object_id"].get<string>(), gpUnitIds, partyIds,
+        return make_unique<BallotStyle>(j.at("object_id").get<string>(), gpUnitIds, partyIds,
                                         imageUri);
     }
 
@@ -389,9 +389,9 @@ namespace electionguard
 
     static unique_ptr<SelectionDescription> selectionDescriptionFromJson(const json &j)
     {
-        return make_unique<SelectionDescription>(j["object_id"].get<string>(),
-                                                 j["candidate_id"].get<string>(),
-                                                 j["sequence_order"].get<uint64_t>());
+        return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
+                                                 j.at("candidate_id").get<string>(),
+                                                 j.at("sequence_order").get<uint64_t>());
     }
 
     static json
@@ -444,26 +444,26 @@ namespace electionguard
 
     static unique_ptr<ContestDescription> contestDescriptionFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
-        auto electoralDistrictId = j["electoral_district_id"].get<string>();
-        auto sequenceOrder = j["sequence_order"].get<uint64_t>();
-        auto variation = getVoteVariationType(j["vote_variation"].get<string>());
-        auto elected = j["number_elected"].get<uint64_t>();
+        auto objectId = j.at("object_id").get<string>();
+        auto electoralDistrictId = j.at("electoral_district_id").get<string>();
+        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
+        auto elected = j.at("number_elected").get<uint64_t>();
         auto allowed =
           j.contains("votes_allowed") && !j["votes_allowed"].is_null()
-            ? j["votes_allowed"].get<uint64_t>()
+            ? j.at("votes_allowed").get<uint64_t>()
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
-        auto name = j["name"].get<string>();
+        auto name = j.at("name").get<string>();
         auto title = j.contains("ballot_title") && !j["ballot_title"].is_null()
-                       ? internationalizedTextFromJson(j["ballot_title"])
+                       ? internationalizedTextFromJson(j.at("ballot_title"))
                        : nullptr;
         auto subtitle = j.contains("ballot_subtitle") && !j["ballot_subtitle"].is_null()
-                          ? internationalizedTextFromJson(j["ballot_subtitle"])
+                          ? internationalizedTextFromJson(j.at("ballot_subtitle"))
                           : nullptr;
 
-        auto selections = selectionDescriptionsFromJson(j["ballot_selections"]);
+        auto selections = selectionDescriptionsFromJson(j.at("ballot_selections"));
 
         return make_unique<ContestDescription>(
           objectId, electoralDistrictId, sequenceOrder, variation, elected, allowed, name,
-- 
2.43.0


From 1ffadf6a90fcfa49bdd7738c29d1d31629c4a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 42/58] fix: contest and timestamp functions of the C interface
 are exported as declared

---
 include/electionguard/ballot.h       | 11 +++++------
 src/electionguard/facades/ballot.cpp |  6 +++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 99fae7c..9332445 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -431,7 +431,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_crypto_hash(
  *                           The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
-  eg_ciphertext_ballot_contest_t *handle, eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref);
+  eg_ciphertext_ballot_contest_t *handle, eg_constant_chaum_pedersen_proof_t **out_proof_ref);
 
 /**
  * Given an encrypted Ballotcontest, generates a hash, suitable for rolling up
@@ -446,7 +446,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
  *                             The caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t *in_encryption_seed,
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t *in_encryption_seed,
   eg_element_mod_q_t **out_crypto_hash);
 
 // TODO: eg_ciphertext_ballot_contest_make
@@ -461,7 +461,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
  *                           The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
 
 /**
  * Add the individual ballot_selections `message` fields together, suitable for use
@@ -471,7 +471,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
  *                                         The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_elgamal_accumulate(
-  eg_ciphertext_ballot_selection_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
+  eg_ciphertext_ballot_contest_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
 
 /**
  * Given an encrypted BallotContest, validates the encryption state against a specific seed hash and public key
@@ -667,8 +667,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_get_ballot_code(
  * provide units as it is up to the consuming system to indicate the scale.
  * Typically a consumer may use seconds since epoch or ticks since epoch
  */
-EG_API eg_electionguard_status_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle,
-                                                                    uint64_t *out_timestamp);
+EG_API uint64_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle);
 
 /**
  * The nonce used to encrypt this ballot. Sensitive & should be treated as a secret
diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..c6916f6 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -555,12 +555,12 @@ eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *han
 }
 
 eg_electionguard_status_t
-eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_selection_t *handle,
-                                       eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref)
+eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *handle,
+                                       eg_constant_chaum_pedersen_proof_t **out_proof_ref)
 {
     try {
         auto *reference = AS_TYPE(CiphertextBallotContest, handle)->getProof();
-        *out_proof_ref = AS_TYPE(eg_disjunctive_chaum_pedersen_proof_t, reference);
+        *out_proof_ref = AS_TYPE(eg_constant_chaum_pedersen_proof_t, reference);
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_ciphertext_ballot_contest_get_proof", e);
-- 
2.43.0


From d77742221dd1790f9b6518b50d4d53b94d30aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 43/58] fix: write-in functions of the C interface are exported
 as declared

---
 include/electionguard/ballot.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 9332445..4872e32 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -85,10 +85,9 @@ EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
   eg_plaintext_ballot_selection_t **out_handle);
 
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_extended_data(
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_write_in(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
-  const char *in_extended_data_value, uint64_t in_extended_data_length,
-  eg_plaintext_ballot_selection_t **out_handle);
+  const char *in_write_in, eg_plaintext_ballot_selection_t **out_handle);
 
 EG_API eg_electionguard_status_t
 eg_plaintext_ballot_selection_free(eg_plaintext_ballot_selection_t *handle);
@@ -117,14 +116,15 @@ EG_API bool
 eg_plaintext_ballot_selection_get_is_placeholder(eg_plaintext_ballot_selection_t *handle);
 
 /**
- * an optional field of arbitrary data, such as the value of a write-in candidate
+ * an optional field with the value of a write-in candidate
  * 
  * @param[in] handle A poiner to the `eg_plaintext_ballot_selection_t` opaque instance
- * @param[out] out_extended_data_ref A pointer to the extended data.  
-                                     The value is a reference and is not owned by the caller
+ * @param[out] out_write_in A pointer to the value.  
+                            The caller is responsible for freeing it.
  */
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_extended_data(
-  eg_plaintext_ballot_selection_t *handle, eg_extended_data_t **out_extended_data_ref);
+EG_API eg_electionguard_status_t
+eg_plaintext_ballot_selection_get_write_in(eg_plaintext_ballot_selection_t *handle,
+                                           char **out_write_in);
 
 /**
  * Given a PlaintextBallotSelection validates that the object matches an expected object
-- 
2.43.0


From 6dc71f6c4338297a07e0114c479b11f4847029d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 44/58] fix: contest constructors of the C interface are
 exported as declared

---
 include/electionguard/manifest.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index a600e62..76a4c3d 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -595,7 +595,8 @@ EG_API eg_electionguard_status_t eg_contest_description_new_with_parties(
 
 EG_API eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
@@ -694,7 +695,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_title(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   eg_selection_description_t *in_placeholder_selections[], uint64_t in_placeholder_selections_size,
@@ -711,7 +713,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_wi
 EG_API eg_electionguard_status_t
 eg_contest_description_with_placeholders_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
-- 
2.43.0


From 3934ac9d76dc12fad77ca93573d466d91ac6e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 45/58] fix: eg_encrypt_contest is exported as declared

---
 include/electionguard/encrypt.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/electionguard/encrypt.h b/include/electionguard/encrypt.h
index eb953ab..4a173a7 100644
--- a/include/electionguard/encrypt.h
+++ b/include/electionguard/encrypt.h
@@ -151,6 +151,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * votes
 *
 * @param[in] in_plaintext: the contest in the valid input form
+* @param[in] in_manifest the `InternalManifest` which defines this ballot's structure
 * @param[in] in_description the `ContestDescriptionWithPlaceholders`
 *        from the `ContestDescription` which defines this contest's structure
 * @param[in] in_public_key the public key (k) used to encrypt the ballot
@@ -161,7 +162,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * @param[out] out_handle a handle to an `eg_ciphertext_ballot_contest_t`. Caller is responsible for lifecycle.
 */
 EG_API eg_electionguard_status_t eg_encrypt_contest(
-  eg_plaintext_ballot_contest_t *in_plaintext,
+  eg_plaintext_ballot_contest_t *in_plaintext, eg_internal_manifest_t *in_manifest,
   eg_contest_description_with_placeholders_t *in_description, eg_element_mod_p_t *in_public_key,
   eg_element_mod_q_t *in_crypto_extended_base_hash, eg_element_mod_q_t *in_nonce_seed,
   bool in_should_verify_proofs, eg_ciphertext_ballot_contest_t **out_handle);
-- 
2.43.0


From a93ce169cb9d3333d8e32eae444b1eca14d1f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 46/58] fix: eg_plaintext_ballot_contest_is_valid is true for a
 valid contest

---
 src/electionguard/facades/ballot.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index c6916f6..57a6764 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -427,8 +427,9 @@ bool eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *handle,
 {
     try {
         return AS_TYPE(PlaintextBallotContest, handle)
-          ->isValid(string(in_expected_object_id), in_expected_num_selections,
-                    in_expected_num_elected, in_votes_allowed);
+                 ->isValid(string(in_expected_object_id), in_expected_num_selections,
+                           in_expected_num_elected,
+                           in_votes_allowed) == electionguard::SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_plaintext_ballot_contest_is_valid", e);
         return false;
-- 
2.43.0


From 2b7d56352eae25555d1f56fd73b3b1a2cb180519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 47/58] fix: context made from hex keeps its extended data

---
 src/electionguard/facades/election.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..1394f7b 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -327,8 +327,9 @@ eg_electionguard_status_t eg_ciphertext_election_context_make_from_hex_with_exte
             extendedData[string(edKey)] = string(edValue);
         }
 
-        auto context = CiphertextElectionContext::make(
-          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash);
+        auto context =
+          CiphertextElectionContext::make(in_number_of_guardians, in_quorum, elGamalPublicKey,
+                                          commitmentHash, manifestHash, extendedData);
         *out_handle = AS_TYPE(eg_ciphertext_election_context_t, context.release());
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From 0ea0c21c7234956a0c8b4c4898fba59fbd6d11fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 48/58] fix: C encryption functions do not free the nonce of
 the caller

---
 src/electionguard/facades/encrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/encrypt.cpp b/src/electionguard/facades/encrypt.cpp
index a42fb42..b666255 100644
--- a/src/electionguard/facades/encrypt.cpp
+++ b/src/electionguard/facades/encrypt.cpp
@@ -350,7 +350,7 @@ eg_electionguard_status_t eg_encrypt_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        auto nonce_ptr = nonce->clone();
 
         auto ciphertext = encryptBallot(*plaintext, *manifest, *context, *code_seed,
                                         move(nonce_ptr), 0, in_should_verify_proofs);
@@ -413,7 +413,7 @@ eg_electionguard_status_t eg_encrypt_compact_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        auto nonce_ptr = nonce->clone();
 
         auto ciphertext = encryptCompactBallot(*plaintext, *manifest, *context, *code_seed,
                                                move(nonce_ptr), 0, in_should_verify_proofs);
-- 
2.43.0


From 98d0e87e7c0063c2a9a94e37d318ad7a725dca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 49/58] fix: contact information is read as contact information

---
 src/electionguard/facades/manifest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..2f56b67 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -410,7 +410,7 @@ eg_electionguard_status_t eg_contact_information_crypto_hash(eg_contact_informat
                                                              eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
+        auto result = AS_TYPE(ContactInformation, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 621725d6bae6b05942b349e369f5bcd9a80d2ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:20 +0000
Subject: [PATCH 50/58] fix: text of an unknown status is not read outside the
 table

---
 include/electionguard/status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/electionguard/status.h b/include/electionguard/status.h
index c7dd091..af5fde1 100644
--- a/include/electionguard/status.h
+++ b/include/electionguard/status.h
@@ -36,7 +36,7 @@ static const char *const eg_electionguard_status_codes[] = {
 static const char *eg_electionguard_get_status(eg_electionguard_status_t status)
 {
     if (status >= ELECTIONGUARD_STATUS_UNKNOWN) {
-        eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
+        return eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
     }
     return eg_electionguard_status_codes[status];
 }
-- 
2.43.0


From 63a1793c081141a20720319c40d6659f8ce88c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:53 +0000
Subject: [PATCH 51/58] fix: a destroyed group element is wiped entirely, not
 only its first eighth

---
 src/electionguard/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 10473fa..2022844 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -138,7 +138,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), sizeof(data)); };
 
         [[nodiscard]] unique_ptr<ElementModP::Impl> clone() const
         {
@@ -302,7 +302,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), sizeof(data)); };
 
         [[nodiscard]] unique_ptr<ElementModQ::Impl> clone() const
         {
-- 
2.43.0


From b5842a07b9191e1f081e1675e8dcc9ee5d03fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:53 +0000
Subject: [PATCH 52/58] fix: assigning a contest with placeholders assigns the
 contest as well

---
 src/electionguard/manifest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 747a064..66610c8 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1398,8 +1398,7 @@ namespace electionguard
     ContestDescriptionWithPlaceholders &
     ContestDescriptionWithPlaceholders::operator=(ContestDescriptionWithPlaceholders other)
     {
-        // TODO: swap the base as well via cast?
-        //(ContestDescription) this = (ContestDescription)other;
+        ContestDescription::operator=(static_cast<const ContestDescription &>(other));
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From d07788e3ffcdda5e447bdd92802f6d94df85851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 53/58] fix: numbers in documents that are negative or no
 integers are refused instead of read as other numbers

---
 src/electionguard/serialize.hpp | 53 +++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 24d489b..fe86acd 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -33,6 +33,15 @@ namespace electionguard
 {
     // TODO: input sanitization and safety
 
+    /// get<uint64_t> turns negative numbers and fractions into other numbers
+    static uint64_t uint64FromJson(const json &j)
+    {
+        if (!j.is_number_integer() || (!j.is_number_unsigned() && j.get<int64_t>() < 0)) {
+            throw std::invalid_argument("expected an unsigned integer");
+        }
+        return j.get<uint64_t>();
+    }
+
     static json annotatedStringToJson(const AnnotatedString &serializable)
     {
         return {{"annotation", serializable.getAnnotation()}, {"value", serializable.getValue()}};
@@ -391,7 +400,7 @@ namespace electionguard
     {
         return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
                                                  j.at("candidate_id").get<string>(),
-                                                 j.at("sequence_order").get<uint64_t>());
+                                                 uint64FromJson(j.at("sequence_order")));
     }
 
     static json
@@ -446,12 +455,12 @@ namespace electionguard
     {
         auto objectId = j.at("object_id").get<string>();
         auto electoralDistrictId = j.at("electoral_district_id").get<string>();
-        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto sequenceOrder = uint64FromJson(j.at("sequence_order"));
         auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
-        auto elected = j.at("number_elected").get<uint64_t>();
+        auto elected = uint64FromJson(j.at("number_elected"));
         auto allowed =
           j.contains("votes_allowed") && !j["votes_allowed"].is_null()
-            ? j.at("votes_allowed").get<uint64_t>()
+            ? uint64FromJson(j.at("votes_allowed"))
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
@@ -663,16 +672,16 @@ namespace electionguard
                 for (auto &contest : contests) {
                     auto contest_object_id = contest["object_id"].get<string>();
                     auto electoral_district_id = contest["electoral_district_id"].get<string>();
-                    auto contest_sequence_order = contest["sequence_order"].get<uint64_t>();
+                    auto contest_sequence_order = uint64FromJson(contest["sequence_order"]);
                     auto vote_variation = contest["vote_variation"].get<string>();
-                    auto number_elected = contest["number_elected"].get<uint64_t>();
+                    auto number_elected = uint64FromJson(contest["number_elected"]);
                     auto name = contest["name"].get<string>();
 
                     auto selections = selectionDescriptionsFromJson(contest["ballot_selections"]);
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
+                    auto votes_allowed = uint64FromJson(contest["votes_allowed"]);
                     auto ballotTitle =
                       contest.contains("ballot_title") && !contest["ballot_title"].is_null()
                         ? internationalizedTextFromJson(contest["ballot_title"])
@@ -766,13 +775,13 @@ namespace electionguard
                 auto commitment_hash = j["commitment_hash"].get<string>();
                 auto manifest_hash = j["manifest_hash"].get<string>();
                 auto elgamal_public_key = j["elgamal_public_key"].get<string>();
-                auto number_of_guardians = j["number_of_guardians"].get<uint64_t>();
-                auto quorum = j["quorum"].get<uint64_t>();
+                auto number_of_guardians = uint64FromJson(j["number_of_guardians"]);
+                auto quorum = uint64FromJson(j["quorum"]);
                 bool allows_overvotes = true;
                 uint64_t max_ballots = DEFAULT_MAX_BALLOTS;
                 if (j.contains("configuration") && !j["configuration"].is_null()) {
                     allows_overvotes = j["configuration"]["allow_overvotes"].get<bool>();
-                    max_ballots = j["configuration"]["max_votes"].get<uint64_t>();
+                    max_ballots = uint64FromJson(j["configuration"]["max_votes"]);
                 }
 
                 auto commitmentHash = ElementModQ::fromHex(commitment_hash);
@@ -871,7 +880,7 @@ namespace electionguard
                     plaintextSelections.reserve(selections.size());
                     for (auto &selection : selections) {
                         auto selection_object_id = selection["object_id"].get<string>();
-                        auto vote = selection["vote"].get<uint64_t>();
+                        auto vote = uint64FromJson(selection["vote"]);
 
                         bool isPlaceholder = false;
                         if (selection.contains("is_placeholder_selection") &&
@@ -941,9 +950,9 @@ namespace electionguard
 
             static unique_ptr<electionguard::EncryptionDevice> toObject(json j)
             {
-                auto deviceUuid = j["device_id"].get<uint64_t>();
-                auto sessionUuid = j["session_id"].get<uint64_t>();
-                auto launchCode = j["launch_code"].get<uint64_t>();
+                auto deviceUuid = uint64FromJson(j["device_id"]);
+                auto sessionUuid = uint64FromJson(j["session_id"]);
+                auto launchCode = uint64FromJson(j["launch_code"]);
                 auto location = j["location"].get<string>();
 
                 return make_unique<electionguard::EncryptionDevice>(deviceUuid, sessionUuid,
@@ -1001,7 +1010,7 @@ namespace electionguard
                 vector<uint64_t> votes;
                 votes.reserve(selections.size());
                 for (auto &selection : selections) {
-                    auto vote = selection.get<uint64_t>();
+                    auto vote = uint64FromJson(selection);
                     votes.push_back(vote);
                 }
 
@@ -1140,7 +1149,7 @@ namespace electionguard
                 auto manifest_hash = j["manifest_hash"].get<string>();
                 auto code_seed = j["code_seed"].get<string>();
                 auto ballot_code = j["code"].get<string>();
-                auto timestamp = j["timestamp"].get<uint64_t>();
+                auto timestamp = uint64FromJson(j["timestamp"]);
                 auto ballot_nonce = j["nonce"].is_null() ? "" : j["nonce"].get<string>();
                 auto crypto_hash = j["crypto_hash"].get<string>();
 
@@ -1150,7 +1159,7 @@ namespace electionguard
                 ciphertextContests.reserve(contests.size());
                 for (auto &contest : contests) {
                     auto contest_object_id = contest["object_id"].get<string>();
-                    auto contest_sequence_order = contest["sequence_order"].get<uint64_t>();
+                    auto contest_sequence_order = uint64FromJson(contest["sequence_order"]);
                     auto contest_description_hash = contest["description_hash"].get<string>();
                     auto contest_nonce =
                       contest["nonce"].is_null() ? "" : contest["nonce"].get<string>();
@@ -1179,7 +1188,7 @@ namespace electionguard
                     auto contest_proof_data = proof["data"].get<string>();
                     auto contest_proof_challenge = proof["challenge"].get<string>();
                     auto contest_proof_response = proof["response"].get<string>();
-                    auto contest_proof_constant = proof["constant"].get<uint64_t>();
+                    auto contest_proof_constant = uint64FromJson(proof["constant"]);
 
                     auto deserializedProof = make_unique<electionguard::ConstantChaumPedersenProof>(
                       ElementModP::fromHex(contest_proof_pad),
@@ -1193,7 +1202,7 @@ namespace electionguard
                     ciphertextSelections.reserve(selections.size());
                     for (auto &selection : selections) {
                         auto selection_object_id = selection["object_id"].get<string>();
-                        auto selection_sequence_order = selection["sequence_order"].get<uint64_t>();
+                        auto selection_sequence_order = uint64FromJson(selection["sequence_order"]);
                         auto selection_description_hash =
                           selection["description_hash"].get<string>();
                         auto selection_is_placeholder_selection =
@@ -1334,7 +1343,7 @@ namespace electionguard
             static unique_ptr<electionguard::SubmittedBallot> toObject(json j)
             {
                 auto ciphertext = SubmittedBallotWrapper::toObjectWrapper(j);
-                auto state = electionguard::BallotBoxState(j["state"].get<uint64_t>());
+                auto state = electionguard::BallotBoxState(uint64FromJson(j["state"]));
                 // TODO: make this a move instead of a copy
                 return electionguard::SubmittedBallot::from(*ciphertext, state);
             }
@@ -1402,9 +1411,9 @@ namespace electionguard
                 auto codeSeed = j["code_seed"].get<string>();
                 auto ballotCode = j["code"].get<string>();
                 auto nonce = j["nonce"].get<string>();
-                auto timestamp = j["timestamp"].get<uint64_t>();
+                auto timestamp = uint64FromJson(j["timestamp"]);
                 auto ballotBoxState =
-                  electionguard::BallotBoxState(j["ballot_box_state"].get<uint64_t>());
+                  electionguard::BallotBoxState(uint64FromJson(j["ballot_box_state"]));
 
                 auto plaintext = CompactPlaintextBallotWrapper::toObjectWrapper(j["plaintext"]);
 
-- 
2.43.0


From e21cc8cba2e7853dcf3552eea1c00a41eaf4e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 54/58] fix: a name or contact information that is not an
 object is refused instead of read as empty

---
 src/electionguard/serialize.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index fe86acd..a3d718f 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -77,6 +77,9 @@ namespace electionguard
 
     static unique_ptr<InternationalizedText> internationalizedTextFromJson(const json &j)
     {
+        if (!j.is_object()) {
+            throw std::invalid_argument("expected an object");
+        }
         vector<unique_ptr<Language>> text;
         if (j.contains("text") && !j["text"].is_null()) {
             for (const auto &i : j.at("text")) {
@@ -122,6 +125,9 @@ namespace electionguard
 
     static unique_ptr<ContactInformation> contactInformationFromJson(const json &j)
     {
+        if (!j.is_object()) {
+            throw std::invalid_argument("expected an object");
+        }
         vector<string> addressLine;
         if (j.contains("address_line") && !j["address_line"].is_null()) {
             for (const auto &i : j.at("address_line")) {
@@ -237,7 +243,7 @@ namespace electionguard
         }
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j.at("name"))
-                      : internationalizedTextFromJson(json("{}"));
+                      : internationalizedTextFromJson(json::object());
 
         return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
@@ -291,7 +297,7 @@ namespace electionguard
         auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j.at("name"))
-                      : internationalizedTextFromJson("{}");
+                      : internationalizedTextFromJson(json::object());
         bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
                            ? j.at("is_write_in").get<bool>()
                            : false;
-- 
2.43.0


From a6673fad9061d4cd9d305ebf5a3f4782fe57e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 55/58] fix: hex text with half a byte is refused instead of
 read as other bytes

---
 src/electionguard/convert.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 9fb1ce5..30c5f61 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -59,6 +59,9 @@ namespace electionguard
         if (hexString.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
             throw std::invalid_argument("the text contains characters that are not hex digits");
         }
+        if (hexString.size() % 2 != 0) {
+            throw std::invalid_argument("the text does not consist of whole bytes");
+        }
     }
 
     inline void hex_to_bytes(const string &hex, uint8_t *bytesOut)
-- 
2.43.0


From 93b02c6a5119c7b05bf54342a7439078966d6ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 56/58] fix: text that is not a date is refused instead of read
 as 1970

---
 src/electionguard/convert.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/convert.cpp b/src/electionguard/convert.cpp
index b5b93a8..0f9697c 100644
--- a/src/electionguard/convert.cpp
+++ b/src/electionguard/convert.cpp
@@ -54,6 +54,9 @@ namespace electionguard
             ss.str(time);
             ss >> date::parse(secondaryFormat, tm);
         }
+        if (ss.fail()) {
+            throw std::invalid_argument("the text is not a date: " + time);
+        }
 
         auto testTime = timePointToIsoString(tm, format);
         return tm;
-- 
2.43.0


From 85aaaa78c923b9aba1ceea405b3c4aedc8e65d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 57/58] fix: a ballot state that is none is refused instead of
 read as another one

---
 src/electionguard/serialize.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index a3d718f..bd3b8b8 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -42,6 +42,17 @@ namespace electionguard
         return j.get<uint64_t>();
     }
 
+    static BallotBoxState ballotBoxStateFromJson(const json &j)
+    {
+        auto state = uint64FromJson(j);
+        for (auto known : {BallotBoxState::cast, BallotBoxState::spoiled, BallotBoxState::unknown}) {
+            if (state == static_cast<uint64_t>(known)) {
+                return known;
+            }
+        }
+        throw std::invalid_argument("unknown ballot box state");
+    }
+
     static json annotatedStringToJson(const AnnotatedString &serializable)
     {
         return {{"annotation", serializable.getAnnotation()}, {"value", serializable.getValue()}};
@@ -1349,7 +1360,7 @@ namespace electionguard
             static unique_ptr<electionguard::SubmittedBallot> toObject(json j)
             {
                 auto ciphertext = SubmittedBallotWrapper::toObjectWrapper(j);
-                auto state = electionguard::BallotBoxState(uint64FromJson(j["state"]));
+                auto state = ballotBoxStateFromJson(j["state"]);
                 // TODO: make this a move instead of a copy
                 return electionguard::SubmittedBallot::from(*ciphertext, state);
             }
@@ -1419,7 +1430,7 @@ namespace electionguard
                 auto nonce = j["nonce"].get<string>();
                 auto timestamp = uint64FromJson(j["timestamp"]);
                 auto ballotBoxState =
-                  electionguard::BallotBoxState(uint64FromJson(j["ballot_box_state"]));
+                  ballotBoxStateFromJson(j["ballot_box_state"]);
 
                 auto plaintext = CompactPlaintextBallotWrapper::toObjectWrapper(j["plaintext"]);
 
-- 
2.43.0


From 75bc5b0bf94d21fce6e64631dfe7e12ac5f92e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 58/58] fix: the votes of a contest are added without wrapping
 around

---
 src/electionguard/ballot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index fcdd75d..87ee243 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -483,7 +483,9 @@ namespace electionguard
         uint64_t votes = 0;
 
         for (const auto &selection : pimpl->selections) {
-            votes += selection->getVote();
+            // the sum must not wrap around
+            votes = selection->getVote() > UINT64_MAX - votes ? UINT64_MAX
+                                                              : votes + selection->getVote();
             if (selection->getVote() >= 1) {
                 numberElected += 1;
             }
-- 
2.43.0

