From 2c11c5350ec68ce00218f5e982aaf088a03fbe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 01/39] fix: keep unused bits of dynamic_bitset's last block
 clear so equality depends only on the stored bits

---
 src/DRAMPower/DRAMPower/util/dynamic_bitset.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
index cc0eb2b..bfddc8b 100644
--- a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
+++ b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
@@ -60,6 +60,13 @@ public:
             lastelementmask.set(i);
         }
     }
+    // The bits of the last block beyond num_bits must stay zero, operator== compares whole blocks
+    inline void clearUnusedBits() {
+        if (0 != num_bits % blocksize) {
+            buffer.back() &= lastelementmask;
+        }
+    }
+
     inline std::size_t size() const { return num_bits; };
     std::size_t count() const {
         std::size_t n = 0;
@@ -92,6 +99,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.set();
         }
+        clearUnusedBits();
     }
     void reset() {
         for (auto &element : buffer) {
@@ -102,6 +110,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.flip();
         }
+        clearUnusedBits();
     }
     void flip(std::size_t n) {
         buffer.at(n / blocksize).flip(n % blocksize);
@@ -162,6 +171,7 @@ public: // bitset operations
         for (std::size_t i = 0; i < this->buffer.size(); ++i) {
             bitset.buffer.at(i) = ~buffer.at(i);
         };
+        bitset.clearUnusedBits();
     
         return bitset;
     }
-- 
2.43.0


From 79d29bb403fb9474ecfea20292c3e55803729162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 02/39] fix: compute LPDDR6 CA parity at the PAR position of
 every 16-bit command instead of checking a position no pattern uses

---
 .../standards/lpddr6/LPDDR6Pattern.cpp        | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index b7a9320..5e14d6e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -3,6 +3,7 @@
 
 #include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
 
+#include <algorithm>
 #include <bitset>
 
 
@@ -154,11 +155,26 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         }
 
         // Parity
-        if (extraData.parity_check_mode && PAR == pattern[2]) {
+        if (extraData.parity_check_mode) {
             // When CA Parity is enabled, the Host 
             // generates an even bit parity based on the 1st and 2nd rising and falling edges of CA[3:0] 
             // signals, excluding the CA Parity bit
-            bitset[pattern.size() - 3] = (1 == bitset.count() % 2);
+            constexpr std::size_t commandBits = 16; // 4 edges of CA[3:0]
+            for (std::size_t first = 0; first < pattern.size(); first += commandBits) {
+                const std::size_t last = std::min(first + commandBits, pattern.size());
+                std::size_t parityPos = last;
+                bool parity = false;
+                for (std::size_t i = first; i < last; ++i) {
+                    if (PAR == pattern[i]) {
+                        parityPos = i;
+                    } else {
+                        parity ^= bitset[pattern.size() - 1 - i];
+                    }
+                }
+                if (parityPos < last) {
+                    bitset[pattern.size() - 1 - parityPos] = parity;
+                }
+            }
         }
 
         return bitset.to_ullong();
-- 
2.43.0


From 49d7ab06af139a7fc8f4c9afbfd204a7bfb97991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 03/39] fix: LPDDR6 encoder aborted for every bank that is not
 the first of its bank group

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index 5e14d6e..10b57ac 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -18,7 +18,6 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         std::bitset<17> row_bits(targetCoordinate.row & 0x1FFFF);
         std::bitset<6> column_bits(targetCoordinate.column & 0x3F);
         std::bitset<2> bank_group_bits(targetCoordinate.bankGroup & 0x3);
-        assert((0 == targetCoordinate.dbank % extraData.numberOfBankGroups) && "Invalid bank configuration");
         auto dbankGroup = targetCoordinate.dbank / extraData.numberOfBankGroups;
         std::bitset<2> dbank_group_bits(dbankGroup & 0x3);
         bool sc_bit = (1 == targetCoordinate.subChannel);
-- 
2.43.0


From 93ee20ca811fad4b706dcfeb86b81ad5ee5274fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 04/39] fix: hook bits above 31 were shifted out of int range
 when building the extension hook cache

---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 6f4eb42..09173ec 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -179,7 +179,7 @@ private:
 
         const HookValue_t supportedHooks = static_cast<HookValue_t>(hookExt->getSupportedHooks());
         for (std::size_t i = 0; i < m_hookCache.size(); ++i) {
-            if ((supportedHooks & (1 << i)) != 0) {
+            if ((supportedHooks & (HookValue_t{1} << i)) != 0) {
                 m_hookCache[i].push_back(extension);
             }
         }
-- 
2.43.0


From 2be887448f191beaa8d28c5cde9dd04f6236bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 05/39] fix: DBI decided on a chunk before its last sub chunk
 was visited

---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..7c5b2f2 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return COUNT_DATA - 1 == m_current_data_idx;
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From 5bcb04aeda01a5c608ab915a124380c0015a9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 06/39] fix: DBI inversion state was not grown when its
 capacity exceeded its size

---
 src/DRAMPower/DRAMPower/util/dbi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..9f2bae1 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
-- 
2.43.0


From 81c61af01df29a9ed4d41dfe6f05155d5b352053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 07/39] fix: undefined shifts in the LPDDR6 data formatter for
 bits that carry neither metadata nor DBI

---
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..5efc34f 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -415,7 +415,7 @@ std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatDa
     if (InversionState.has_value()) {
         std::size_t n = std::min(InversionState->get().size(), static_cast<std::size_t>(32));
         for (std::size_t i = 0; i < n; ++i) {
-            dbival |= (static_cast<uint16_t>(InversionState->get()[i]) << i);
+            dbival |= (static_cast<uint32_t>(InversionState->get()[i]) << i);
         }
     }
 
@@ -442,8 +442,8 @@ std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatDa
 
             int mapping = dataBitsPerBurstNoMetaNoDBI * burst24 + dataBitMapping[dataBitIdx]; 
             bool dataBit = (inputData[mapping >> 3] >> (mapping & 7)) & 1;
-            bool metaBit = (m_metaData[burst24] >> bitOffset) & 1;
-            bool dbiBit = (dbival >> ((16 * burst24) + bitOffset)) & 1;
+            bool metaBit = isMeta && ((m_metaData[burst24] >> bitOffset) & 1);
+            bool dbiBit = isDbi && ((dbival >> ((16 * burst24) + bitOffset)) & 1);
 
             bool bitValue = (dbiBit && isDbi) || (metaBit && isMeta) || (dataBit && isData);
 
-- 
2.43.0


From a3c074aa951d38fda2c9c42c11d1c966b96ddedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 08/39] fix: DBI snapshot was read back with other element
 types than it was written with

---
 src/DRAMPower/DRAMPower/util/dbi.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 9f2bae1..15f43b2 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
@@ -341,9 +341,9 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
-            stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
-            m_invertedData.push_back(byte);
+            DataType_t entry;
+            stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
+            m_invertedData.push_back(entry);
         }
     }
 
-- 
2.43.0


From 21b80c556da9ad52c2dddb49ce35cca4a7e4b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 09/39] fix: PatternHandler snapshots lost the last command
 pattern that LAST_BIT overrides depend on

---
 src/DRAMPower/DRAMPower/util/PatternHandler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/PatternHandler.h b/src/DRAMPower/DRAMPower/util/PatternHandler.h
index a08cea0..cf6e48c 100644
--- a/src/DRAMPower/DRAMPower/util/PatternHandler.h
+++ b/src/DRAMPower/DRAMPower/util/PatternHandler.h
@@ -102,9 +102,11 @@ public:
 public:
     void serialize(std::ostream& stream) const override {
         m_encoder.serialize(stream);
+        stream.write(reinterpret_cast<const char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
     void deserialize(std::istream& stream) override {
         m_encoder.deserialize(stream);
+        stream.read(reinterpret_cast<char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
 
 // Private member variables
-- 
2.43.0


From 1c26956a215166386f62cb6846b6485460f7c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 10/39] fix: resetting an inverted DBI pin pushed an additional
 beat into the following burst and overflowed it

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 +++-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 +++-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..6eb5cc9 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -32,7 +32,9 @@ namespace DRAMPower {
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
         , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength,
-            [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+            [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+            // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
+            if (chunk_timestamp < load_timestamp) return;
             this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
         }, false)
         , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..ae5a6a2 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -32,7 +32,9 @@ LPDDR4Interface::LPDDR4Interface(const MemSpecLPDDR4& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_writeDQS(memSpec.dataRate, true)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
+        if (chunk_timestamp < load_timestamp) return;
         this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
     }, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..3d7a555 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -31,7 +31,9 @@ LPDDR5Interface::LPDDR5Interface(const MemSpecLPDDR5& memSpec, const config::Sim
     , m_readDQS(memSpec.dataRate, true)
     , m_wck(memSpec.dataRate / memSpec.memTimingSpec.WCKtoCK, !memSpec.wckAlwaysOnMode)
     , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
+        if (chunk_timestamp < load_timestamp) return;
         this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
     }, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
-- 
2.43.0


From 84c7c66c321487c2f57d7a32987caa4379d2a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 11/39] fix: buses that are no multiple of the DBI chunk size
 (x4 DDR4) could not be simulated even with DBI disabled

---
 src/DRAMPower/DRAMPower/util/dbi.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 15f43b2..90e868e 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -186,11 +186,14 @@ public:
         , m_enable(enable)
         , m_algorithm(std::forward<Args>(args)...)
     {
-        assert(!busWidth.has_value() || (0 == (busWidth.value() % ChunkSize) && "busWidth must be a multiple of CHUNKSIZE"));
+        assert((!enable || isWidthSupported()) && "busWidth must be a multiple of CHUNKSIZE");
     }
 
 // Private member functions
 private:
+    bool isWidthSupported() const {
+        return !m_width.has_value() || 0 == (m_width.value() % ChunkSize);
+    }
     void invertChunk(std::size_t chunk_start) {
         std::size_t subchunk_start = chunk_start * SUBCHUNKS;
         for (std::size_t subchunk = subchunk_start; subchunk < subchunk_start + SUBCHUNKS; ++subchunk) {
@@ -201,6 +204,7 @@ private:
 // Public member functions
 public:
     void enable(bool enable) {
+        assert((!enable || isWidthSupported()) && "busWidth must be a multiple of CHUNKSIZE");
         m_enable = enable;
     }
     bool isEnabled() const {
-- 
2.43.0


From 8779b176adee3d202d83baa9901267cd089db74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 12/39] fix: Pin::set multiplied the load time with the data
 rate twice

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 1a94e23..35c417e 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -143,7 +143,7 @@ public:
         timestamp_t virtual_load_time  = load_time * dataRate;
 
         // Count stats to virtual_load_time
-        set_internal(virtual_load_time, dataRate, m_pending_stats, m_stats);
+        set_internal(load_time, dataRate, m_pending_stats, m_stats);
         if (m_pending_stats.isPending() && m_pending_stats.getTimestamp() < virtual_load_time) {
             m_pending_stats.clear();
         }
-- 
2.43.0


From a11088df572710e25bd97ca6a9a2d31a32d5973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 13/39] fix: bus counted the time while it was disabled and
 lost its state when enabled again

---
 src/DRAMPower/DRAMPower/util/bus.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..54eaf25 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -90,6 +90,13 @@ public:
 private:
 
 	void advance_stats(timestamp_t virtual_timestamp, stats_t& stats) const {
+		if (this->burst_storage.empty()) {
+			// Only idle since last_load, the first idle beat is stored in the pending stats
+			if (virtual_timestamp > this->last_load) {
+				stats += (virtual_timestamp - this->last_load - 1) * idle_stats;
+			}
+			return;
+		}
 		// Advance counters to new timestamp
 		timestamp_t burstStorageEndTime = this->burst_storage.endTime();
 		// Burst storage
@@ -119,7 +126,7 @@ private:
 		}
 		advance_stats(virtual_timestamp, stats);
 		// Pattern for pending stats (virtual_timestamp - 1, virtual_timestamp)
-		if(virtual_timestamp > 0)
+		if(virtual_timestamp > this->last_load)
 		{
 			this->last_pattern = this->at(virtual_timestamp - 1);
 		}
@@ -201,6 +208,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
@@ -217,6 +225,7 @@ public:
 		this->last_load = timestamp * this->datarate;
 		// Add pending stats at enable timestamp
 		this->pending_stats.setPendingStats(this->last_load, idle_stats);
+		this->last_pattern = this->idle_pattern_burst;
 		this->enableflag = true;
 	}
 
-- 
2.43.0


From aa9d37778ae3557c6ae6939e6da391f2e57a5fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 14/39] fix: a Pin could not be assigned, so the simulators
 using pins had no working copy assignment

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 35c417e..1005268 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -221,7 +221,7 @@ private:
     pin_stats_t m_stats;
 
     PinState m_last_state = PinState::Z;
-    const PinState m_idle_state = PinState::L;
+    PinState m_idle_state = PinState::L;
 
     bool m_init_load = true;
 
-- 
2.43.0


From 35fe25924b30d5286da728e47fee60ffd080e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 15/39] fix: copied interfaces reported data bus inversion on
 the signals of the object they were copied from

---
 .../DRAMPower/standards/ddr4/DDR4Interface.cpp | 18 ++++++++++++------
 .../DRAMPower/standards/ddr4/DDR4Interface.h   |  1 +
 .../standards/lpddr4/LPDDR4Interface.cpp       | 18 ++++++++++++------
 .../standards/lpddr4/LPDDR4Interface.h         |  1 +
 .../standards/lpddr5/LPDDR5Interface.cpp       | 18 ++++++++++++------
 .../standards/lpddr5/LPDDR5Interface.h         |  1 +
 6 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6eb5cc9..217961b 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -31,12 +31,7 @@ namespace DRAMPower {
         , m_readDQS(memSpec.dataRate, true)
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
-        , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength,
-            [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
-            // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
-            if (chunk_timestamp < load_timestamp) return;
-            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-        }, false)
+        , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength, nullptr, false)
         , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , prepostambleReadMinTccd(memSpec.prePostamble.readMinTccd)
@@ -187,6 +182,15 @@ namespace DRAMPower {
         }
     }
 
+    void DDR4Interface::bindDBICallback() {
+        // The callback refers to the object it is set from. It is therefore bound before every use and not taken over from a copied object.
+        m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+            // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
+            if (chunk_timestamp < load_timestamp) return;
+            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+        });
+    }
+
     std::optional<const uint8_t *> DDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
         if (0 == n_bits || !data || !m_dbi.isEnabled()) {
             // No DBI or no data to process
@@ -194,6 +198,7 @@ namespace DRAMPower {
         }
         timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
         // updateDBI calls the given callback to handle pin changes
+        bindDBICallback();
         return m_dbi.updateDBI(virtual_time, n_bits, data, read);
     }
 
@@ -329,6 +334,7 @@ namespace DRAMPower {
     }
 
     void DDR4Interface::endOfSimulation(timestamp_t timestamp) {
+        bindDBICallback();
         m_dbi.dispatchResetCallback(timestamp);
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
index 07366b0..6423f71 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
@@ -75,6 +75,7 @@ public:
 // Private member functions
 private:
     void registerPatterns();
+    void bindDBICallback();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index ae5a6a2..f407b8c 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -31,12 +31,7 @@ LPDDR4Interface::LPDDR4Interface(const MemSpecLPDDR4& memSpec, const config::Sim
     }
     , m_readDQS(memSpec.dataRate, true)
     , m_writeDQS(memSpec.dataRate, true)
-    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
-        // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
-        if (chunk_timestamp < load_timestamp) return;
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength, nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{
@@ -163,6 +158,15 @@ void LPDDR4Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+void LPDDR4Interface::bindDBICallback() {
+    // The callback refers to the object it is set from. It is therefore bound before every use and not taken over from a copied object.
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
+        if (chunk_timestamp < load_timestamp) return;
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
@@ -170,6 +174,7 @@ std::optional<const uint8_t *> LPDDR4Interface::handleDBIInterface(timestamp_t t
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
     // updateDBI calls the given callback to handle pin changes
+    bindDBICallback();
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
 
@@ -238,6 +243,7 @@ void LPDDR4Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR4Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBICallback();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
index f8aee8e..61e5cdc 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
@@ -71,6 +71,7 @@ public:
 // Private Member functions
 private:
     void registerPatterns();
+    void bindDBICallback();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 3d7a555..823855b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -30,12 +30,7 @@ LPDDR5Interface::LPDDR5Interface(const MemSpecLPDDR5& memSpec, const config::Sim
     }
     , m_readDQS(memSpec.dataRate, true)
     , m_wck(memSpec.dataRate / memSpec.memTimingSpec.WCKtoCK, !memSpec.wckAlwaysOnMode)
-    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
-        // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
-        if (chunk_timestamp < load_timestamp) return;
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength, nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{}) // No overrides
@@ -295,6 +290,15 @@ void LPDDR5Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+void LPDDR5Interface::bindDBICallback() {
+    // The callback refers to the object it is set from. It is therefore bound before every use and not taken over from a copied object.
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t chunk_timestamp, std::size_t pin, bool inversion_state, bool read) {
+        // A reset of an already finished burst precedes the load; the pin is idle again since the end of that burst
+        if (chunk_timestamp < load_timestamp) return;
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR5Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
@@ -302,6 +306,7 @@ std::optional<const uint8_t *> LPDDR5Interface::handleDBIInterface(timestamp_t t
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
     // updateDBI calls the given callback to handle pin changes
+    bindDBICallback();
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
 
@@ -369,6 +374,7 @@ void LPDDR5Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR5Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBICallback();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
index d1c5ebd..3d6a9c7 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
@@ -75,6 +75,7 @@ public:
 // Public member functions
 private:
     void registerPatterns();
+    void bindDBICallback();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
-- 
2.43.0


From 73c46949e9adaa0bdbf7b12c94cda099879ac90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 16/39] fix: an extension manager could not be serialized after
 an extension was registered again

---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 09173ec..aa608c5 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -2,6 +2,7 @@
 #define DRAMPOWER_UTIL_EXTENSION_MANAGER
 
 #include "DRAMPower/util/Serialize.h"
+#include <algorithm>
 #include <cstddef>
 #include <unordered_map>
 #include <typeindex>
@@ -63,8 +64,17 @@ protected:
 
         auto ext = std::make_shared<T>(std::forward<Args>(args)...);
         auto typeIndex = std::type_index(typeid(T));
-        m_extensions[typeIndex] = ext;
-        m_serStorage.emplace_back(ext);
+        auto& registered = m_extensions[typeIndex];
+        // A new extension takes the place of an already registered extension of the same type
+        auto it = std::find_if(m_serStorage.begin(), m_serStorage.end(), [&registered](const auto& wp) {
+            return nullptr != registered && wp.lock() == registered;
+        });
+        if (it != m_serStorage.end()) {
+            *it = ext;
+        } else {
+            m_serStorage.emplace_back(ext);
+        }
+        registered = ext;
         return ext;
     }
 
-- 
2.43.0


From b828cc62e3a2823825f4229a9bbbd56e4d41730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 17/39] fix: copied and moved simulators kept switching the
 extensions of the object they were taken from

---
 .../DRAMPower/standards/ddr4/DDR4.cpp         | 50 ++++++++++++++++++-
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h |  8 +--
 .../DRAMPower/standards/lpddr4/LPDDR4.cpp     | 50 ++++++++++++++++++-
 .../DRAMPower/standards/lpddr4/LPDDR4.h       |  8 +--
 .../DRAMPower/standards/lpddr5/LPDDR5.cpp     | 50 ++++++++++++++++++-
 .../DRAMPower/standards/lpddr5/LPDDR5.h       |  8 +--
 .../DRAMPower/standards/lpddr6/LPDDR6.cpp     | 50 ++++++++++++++++++-
 .../DRAMPower/standards/lpddr6/LPDDR6.h       |  8 +--
 8 files changed, 212 insertions(+), 20 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
index eb13b29..6f5699e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
@@ -10,6 +10,8 @@
 #include <DRAMPower/command/Pattern.h>
 #include <DRAMPower/util/extensions.h>
 
+#include <utility>
+
 namespace DRAMPower {
 
     using namespace DRAMUtils::Config;
@@ -22,8 +24,54 @@ namespace DRAMPower {
         this->registerExtensions();
     }
 
+// Copy and move
+    // The extensions refer to the object they are registered by and are therefore registered again
+    DDR4::DDR4(const DDR4& other)
+        : dram_base<CmdType>(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    DDR4::DDR4(DDR4&& other) noexcept
+        : dram_base<CmdType>(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
+    DDR4& DDR4::operator=(const DDR4& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(other);
+            m_memSpec = other.m_memSpec;
+            m_interface = other.m_interface;
+            m_core = other.m_core;
+            registerExtensions();
+        }
+        return *this;
+    }
+
+    DDR4& DDR4::operator=(DDR4&& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(std::move(other));
+            m_memSpec = std::move(other.m_memSpec);
+            m_interface = std::move(other.m_interface);
+            m_core = std::move(other.m_core);
+            registerExtensions();
+        }
+        return *this;
+    }
+
 // Extensions
     void DDR4::registerExtensions() {
+        bool dbiEnabled = false; // Keep the state if taken over from another object
+        getExtensionManager().withExtension<extensions::DBI>([&dbiEnabled](const extensions::DBI& dbi) {
+            dbiEnabled = dbi.isEnabled();
+        });
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable) {
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             // x4,x8,x16 devices: only x8 and x16 support dbi
@@ -33,7 +81,7 @@ namespace DRAMPower {
             }
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
index 3e9fa1a..b05bf2e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
@@ -25,10 +25,10 @@ class DDR4 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     DDR4() = delete; // No default constructor
-    DDR4(const DDR4& other) = default; // copy constructor
-    DDR4(DDR4&& other) noexcept = default; // move constructor
-    DDR4& operator=(const DDR4&) = default; // copy assignment operator
-    DDR4& operator=(DDR4&&) = default; // move assignment operator
+    DDR4(const DDR4& other); // copy constructor
+    DDR4(DDR4&& other) noexcept; // move constructor
+    DDR4& operator=(const DDR4& other); // copy assignment operator
+    DDR4& operator=(DDR4&& other); // move assignment operator
     ~DDR4() override = default;
     
     DDR4(const MemSpecDDR4 &memSpec, const config::SimConfig &simConfig = {});
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
index 9136011..9c3b4cb 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
@@ -6,6 +6,8 @@
 #include <DRAMPower/standards/lpddr4/interface_calculation_LPDDR4.h>
 #include <DRAMPower/util/extensions.h>
 
+#include <utility>
+
 
 namespace DRAMPower {
 
@@ -19,14 +21,60 @@ namespace DRAMPower {
         registerExtensions();
     }
 
+// Copy and move
+    // The extensions refer to the object they are registered by and are therefore registered again
+    LPDDR4::LPDDR4(const LPDDR4& other)
+        : dram_base<CmdType>(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    LPDDR4::LPDDR4(LPDDR4&& other) noexcept
+        : dram_base<CmdType>(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
+    LPDDR4& LPDDR4::operator=(const LPDDR4& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(other);
+            m_memSpec = other.m_memSpec;
+            m_interface = other.m_interface;
+            m_core = other.m_core;
+            registerExtensions();
+        }
+        return *this;
+    }
+
+    LPDDR4& LPDDR4::operator=(LPDDR4&& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(std::move(other));
+            m_memSpec = std::move(other.m_memSpec);
+            m_interface = std::move(other.m_interface);
+            m_core = std::move(other.m_core);
+            registerExtensions();
+        }
+        return *this;
+    }
+
 // Extensions
     void LPDDR4::registerExtensions() {
+        bool dbiEnabled = false; // Keep the state if taken over from another object
+        getExtensionManager().withExtension<extensions::DBI>([&dbiEnabled](const extensions::DBI& dbi) {
+            dbiEnabled = dbi.isEnabled();
+        });
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable){
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             // x8,x16 devices: support dbi
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
index 1818446..11464db 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
@@ -23,10 +23,10 @@ class LPDDR4 : public dram_base<CmdType>{
 // public constructors and assignment operators
 public:
     LPDDR4() = delete; // No default constructor
-    LPDDR4(const LPDDR4&) = default; // copy constructor
-    LPDDR4& operator=(const LPDDR4&) = default; // copy assignment operator
-    LPDDR4(LPDDR4&&) = default; // move constructor
-    LPDDR4& operator=(LPDDR4&&) = default; // move assignment operator
+    LPDDR4(const LPDDR4& other); // copy constructor
+    LPDDR4& operator=(const LPDDR4& other); // copy assignment operator
+    LPDDR4(LPDDR4&& other) noexcept; // move constructor
+    LPDDR4& operator=(LPDDR4&& other); // move assignment operator
     ~LPDDR4() override = default;
     
     LPDDR4(const MemSpecLPDDR4& memSpec, const config::SimConfig &simConfig = {});
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
index 83ccdb1..3a7435d 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
@@ -10,6 +10,8 @@
 
 #include <iostream>
 
+#include <utility>
+
 
 namespace DRAMPower {
 
@@ -21,13 +23,59 @@ namespace DRAMPower {
         registerExtensions();
     }
 
+// Copy and move
+    // The extensions refer to the object they are registered by and are therefore registered again
+    LPDDR5::LPDDR5(const LPDDR5& other)
+        : dram_base<CmdType>(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    LPDDR5::LPDDR5(LPDDR5&& other) noexcept
+        : dram_base<CmdType>(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
+    LPDDR5& LPDDR5::operator=(const LPDDR5& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(other);
+            m_memSpec = other.m_memSpec;
+            m_interface = other.m_interface;
+            m_core = other.m_core;
+            registerExtensions();
+        }
+        return *this;
+    }
+
+    LPDDR5& LPDDR5::operator=(LPDDR5&& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(std::move(other));
+            m_memSpec = std::move(other.m_memSpec);
+            m_interface = std::move(other.m_interface);
+            m_core = std::move(other.m_core);
+            registerExtensions();
+        }
+        return *this;
+    }
+
 // Extensions
     void LPDDR5::registerExtensions() {
+        bool dbiEnabled = false; // Keep the state if taken over from another object
+        getExtensionManager().withExtension<extensions::DBI>([&dbiEnabled](const extensions::DBI& dbi) {
+            dbiEnabled = dbi.isEnabled();
+        });
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable){
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
index c719c9b..6c8a2ea 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
@@ -23,10 +23,10 @@ class LPDDR5 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     LPDDR5() = delete; // No default constructor
-    LPDDR5(const LPDDR5&) = default; // copy constructor
-    LPDDR5& operator=(const LPDDR5&) = default; // copy assignment operator
-    LPDDR5(LPDDR5&&) = default; // move constructor
-    LPDDR5& operator=(LPDDR5&&) = default; // move assignment operator
+    LPDDR5(const LPDDR5& other); // copy constructor
+    LPDDR5& operator=(const LPDDR5& other); // copy assignment operator
+    LPDDR5(LPDDR5&& other) noexcept; // move constructor
+    LPDDR5& operator=(LPDDR5&& other); // move assignment operator
     ~LPDDR5() override = default;
     LPDDR5(const MemSpecLPDDR5& memSpec, const config::SimConfig& simConfig = {});
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
index 2f0da34..ee79741 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
@@ -8,6 +8,8 @@
 #include <iostream>
 #include <tuple>
 
+#include <utility>
+
 
 namespace DRAMPower {
 
@@ -21,13 +23,59 @@ namespace DRAMPower {
         registerExtensions();
     }
 
+// Copy and move
+    // The extensions refer to the object they are registered by and are therefore registered again
+    LPDDR6::LPDDR6(const LPDDR6& other)
+        : dram_base<CmdType>(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    LPDDR6::LPDDR6(LPDDR6&& other) noexcept
+        : dram_base<CmdType>(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
+    LPDDR6& LPDDR6::operator=(const LPDDR6& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(other);
+            m_memSpec = other.m_memSpec;
+            m_interface = other.m_interface;
+            m_core = other.m_core;
+            registerExtensions();
+        }
+        return *this;
+    }
+
+    LPDDR6& LPDDR6::operator=(LPDDR6&& other) {
+        if (this != &other) {
+            dram_base<CmdType>::operator=(std::move(other));
+            m_memSpec = std::move(other.m_memSpec);
+            m_interface = std::move(other.m_interface);
+            m_core = std::move(other.m_core);
+            registerExtensions();
+        }
+        return *this;
+    }
+
 // Extensions
     void LPDDR6::registerExtensions() {
+        bool dbiEnabled = false; // Keep the state if taken over from another object
+        getExtensionManager().withExtension<extensions::DBI>([&dbiEnabled](const extensions::DBI& dbi) {
+            dbiEnabled = dbi.isEnabled();
+        });
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable) -> bool {
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, dbiEnabled);
         getExtensionManager().registerExtension<extensions::MetaData>([this](uint16_t metaData1, uint16_t metaData2) -> void {
             m_interface.setMetaData(metaData1, metaData2);
         },
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
index 966dace..925b33f 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
@@ -21,10 +21,10 @@ class LPDDR6 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     LPDDR6() = delete; // No default constructor
-    LPDDR6(const LPDDR6&) = default; // copy constructor
-    LPDDR6& operator=(const LPDDR6&) = default; // copy assignment operator
-    LPDDR6(LPDDR6&&) = default; // move constructor
-    LPDDR6& operator=(LPDDR6&&) = default; // move assignment operator
+    LPDDR6(const LPDDR6& other); // copy constructor
+    LPDDR6& operator=(const LPDDR6& other); // copy assignment operator
+    LPDDR6(LPDDR6&& other) noexcept; // move constructor
+    LPDDR6& operator=(LPDDR6&& other); // move assignment operator
     ~LPDDR6() override = default;
     LPDDR6(const MemSpecLPDDR6& memSpec, const config::SimConfig &simConfig = {});
 
-- 
2.43.0


From 4f6c57b829b644b296bf50341e4ff2b99acb1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 18/39] fix: banks refreshed right before active power-down
 were reactivated when it ended

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..e0aabda 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -248,7 +248,7 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         rank.cycles.powerDownAct.close_interval(exitTime);
         rank.cycles.act.start_interval(exitTime);
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 bank.cycles.act.start_interval(exitTime);
             }
         }
-- 
2.43.0


From 8bc03c404d8a29fb3b23666666d42985e2f71c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 19/39] fix: snapshots of running clocks contained
 indeterminate bytes

---
 src/DRAMPower/DRAMPower/util/clock.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/clock.h b/src/DRAMPower/DRAMPower/util/clock.h
index 1f654ea..e737f30 100644
--- a/src/DRAMPower/DRAMPower/util/clock.h
+++ b/src/DRAMPower/DRAMPower/util/clock.h
@@ -78,7 +78,8 @@ public:
         bool hasLastStart = last_start.has_value();
         stream.write(reinterpret_cast<const char*>(&hasLastStart), sizeof(hasLastStart));
         if (hasLastStart) {
-            stream.write(reinterpret_cast<const char*>(&last_start), sizeof(last_start));
+            timestamp_t start = *last_start;
+            stream.write(reinterpret_cast<const char*>(&start), sizeof(start));
         }
         stats.serialize(stream);
     };
@@ -88,8 +89,9 @@ public:
         bool hasLastStart = false;
         stream.read(reinterpret_cast<char*>(&hasLastStart), sizeof(hasLastStart));
         if (hasLastStart) {
-            last_start = timestamp_t();
-            stream.read(reinterpret_cast<char*>(&last_start), sizeof(last_start));
+            timestamp_t start = 0;
+            stream.read(reinterpret_cast<char*>(&start), sizeof(start));
+            last_start = start;
         } else {
             last_start.reset();
         }
-- 
2.43.0


From 01de7c7f230291cc6d8ca58ffb2e823f0189e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 20/39] fix: DDR4 pre- and postamble energy underflowed because
 accesses were not counted per rank

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9a45d31..9ed2b40 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -316,6 +316,11 @@ void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
                                         rank.cycles.powerDownAct.get_count_at(timestamp) +
                                         rank.cycles.powerDownPre.get_count_at(timestamp) +
                                         rank.cycles.sref.get_count_at(timestamp));
+            // The pre- and postamble energy depends on the accesses of the rank
+            stats.rank_total[i].counter.reads += rank.banks[j].counter.reads;
+            stats.rank_total[i].counter.readAuto += rank.banks[j].counter.readAuto;
+            stats.rank_total[i].counter.writes += rank.banks[j].counter.writes;
+            stats.rank_total[i].counter.writeAuto += rank.banks[j].counter.writeAuto;
         }
         stats.rank_total[i].cycles.act = rank.cycles.act.get_count_at(timestamp);
         stats.rank_total[i].cycles.powerDownAct = rank.cycles.powerDownAct.get_count_at(timestamp);
-- 
2.43.0


From d11a6088a707116c9a0bd2aaa9ce6d6d883d0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 21/39] fix: DDR5 toggling-rate energy ignored the data bus
 termination flags

---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From d47e86ac5ed8ba232a340dbfd7b9211236873cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 22/39] fix: DDR5 had no command bus pattern for self-refresh
 exit

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
index 777c51b..a8953b7 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
@@ -97,6 +97,10 @@ void DDR5Interface::registerPatterns() {
     m_patternHandler.registerPattern<CmdType::SREFEN>({
         H, H, H, L, H, V, V, V, V, H, L, V, V, V
     });
+    // SREFEX
+    m_patternHandler.registerPattern<CmdType::SREFEX>({
+        H, H, H, H, H, V, V, V, V, V, V, V, V, V
+    });
     // PDEA
     m_patternHandler.registerPattern<CmdType::PDEA>({
         H, H, H, L, H, V, V, V, V, V, H, L, V, V
-- 
2.43.0


From 588f6cfa64c266a1f8bbed14d972c6436eaa85a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 23/39] fix: LPDDR4, LPDDR5 and LPDDR6 snapshots lacked data
 bus inversion, metadata and power state of the interface

---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp |  6 ++++++
 3 files changed, 34 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index f407b8c..429d797 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -282,6 +282,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -291,6 +298,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 823855b..66f4635 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -408,6 +408,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto& pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto& pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -417,6 +424,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto& pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto& pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 5efc34f..b29bd97 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,9 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    stream.write(reinterpret_cast<const char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +391,9 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    stream.read(reinterpret_cast<char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
-- 
2.43.0


From 1cacd29c03c28c662a48e0d3ab2e02cac5a774e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 24/39] fix: several commands with an out-of-range rank or bank
 accessed memory out of bounds in release builds

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp | 2 +-
 src/DRAMPower/DRAMPower/util/RegisterHelper.h            | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 217961b..f419e16 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -329,7 +329,7 @@ namespace DRAMPower {
         handleDQs(cmd, dqs, length);
         handleCommandBus(cmd);
         assert(m_ranks.size()>cmd.targetCoordinate.rank);
-        auto & rank = m_ranks[cmd.targetCoordinate.rank];
+        auto & rank = m_ranks.at(cmd.targetCoordinate.rank);
         handlePrePostamble(cmd.timestamp, length / m_memSpec.dataRate, rank, read);
     }
 
diff --git a/src/DRAMPower/DRAMPower/util/RegisterHelper.h b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
index e5c2d35..1f57de7 100644
--- a/src/DRAMPower/DRAMPower/util/RegisterHelper.h
+++ b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
@@ -23,7 +23,9 @@ namespace coreHelpers {
     template<typename Func, typename Owner, typename Command_t = Command>
     decltype(auto) bankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
-        assert(ranks.at(cmd.targetCoordinate.rank).banks.size()>cmd.targetCoordinate.bank);
+        auto & rank = ranks.at(cmd.targetCoordinate.rank);
+        assert(rank.banks.size()>cmd.targetCoordinate.bank);
+        rank.banks.at(cmd.targetCoordinate.bank); // throws if out of range
 
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.targetCoordinate.bank, cmd.timestamp);
     }
@@ -39,6 +41,8 @@ namespace coreHelpers {
     template<typename Func, typename Owner, typename Command_t = Command>
     decltype(auto) rankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
+        ranks.at(cmd.targetCoordinate.rank); // throws if out of range
+
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.timestamp);
     }
 
-- 
2.43.0


From a3fdd9179bce41c8dda02649453b8aafd71776f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 25/39] fix: data bus inversion signals were evaluated with a
 fixed data rate of two instead of the configured one

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index f419e16..a18c3da 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -372,10 +372,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index 429d797..838dc92 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -262,10 +262,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 66f4635..abbd9f5 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -393,10 +393,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From ab5b3f46e3453285761ca5929380424cbdefc100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 26/39] fix: LPDDR5 memory specs with zero bank groups,
 accepted as 16B and 8B mode, divided by zero

---
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 5eb179a..5127b99 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -8,7 +8,6 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
 {
     numberOfBankGroups      = memspec.memarchitecturespec.nbrOfBankGroups;
     numberOfRanks           = memspec.memarchitecturespec.nbrOfRanks;
-    banksPerGroup           = numberOfBanks / numberOfBankGroups;
 
     memTimingSpec.tCK       = memspec.memtimingspec.tCK;
     memTimingSpec.WCKtoCK   = memspec.memtimingspec.WCK2CK;
@@ -113,6 +112,7 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
     } else {
         BankArchError();
     }
+    banksPerGroup           = numberOfBanks / (numberOfBankGroups == 0 ? 1 : numberOfBankGroups);
 
     // Source: LPDDR5 standard; table 312
     memTimingSpec.tBurst = burstLength/(dataRate * memTimingSpec.WCKtoCK);
-- 
2.43.0


From f0fdbc6a37f3f645b41efa3d6d71cde37628821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 27/39] fix: read latency and DDR4 refresh mode of the memory
 spec were left uninitialized

---
 src/DRAMPower/DRAMPower/memspec/MemSpecDDR4.cpp   | 4 ++++
 src/DRAMPower/DRAMPower/memspec/MemSpecDDR5.cpp   | 1 +
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp | 1 +
 src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR6.cpp | 1 +
 4 files changed, 7 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecDDR4.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecDDR4.cpp
index 62e77c7..9f06cb4 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecDDR4.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecDDR4.cpp
@@ -50,6 +50,7 @@ MemSpecDDR4::MemSpecDDR4(const DRAMUtils::MemSpec::MemSpecDDR4 &memspec)
     memTimingSpec.tRAS     = memspec.memtimingspec.RAS;
     memTimingSpec.tRCD     = memspec.memtimingspec.RCD;
     memTimingSpec.tRTP     = memspec.memtimingspec.RTP;
+    memTimingSpec.tRL      = memspec.memtimingspec.RL;
     memTimingSpec.tWL      = memspec.memtimingspec.WL;
     memTimingSpec.tWR      = memspec.memtimingspec.WR;
     memTimingSpec.tRP      = memspec.memtimingspec.RP;
@@ -89,15 +90,18 @@ MemSpecDDR4::MemSpecDDR4(const DRAMUtils::MemSpec::MemSpecDDR4 &memspec)
         memPowerSpec[VDD].iXX5X      = memspec.mempowerspec.idd5F2;
         memPowerSpec[VPP].iXX5X      = memspec.mempowerspec.ipp5F2;
         memTimingSpec.tRFC = memspec.memtimingspec.RFC2;
+        refreshMode = 2;
     } else if (DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_4 == memspec.memarchitecturespec.RefMode) {
         memPowerSpec[VDD].iXX5X      = memspec.mempowerspec.idd5F4;
         memPowerSpec[VPP].iXX5X      = memspec.mempowerspec.ipp5F4;
         memTimingSpec.tRFC = memspec.memtimingspec.RFC4;
+        refreshMode = 4;
     } else {
         // RefModeTypeDDR4::REF_MODE_1 || RefModeTypeDDR4::INVALID
         memPowerSpec[VDD].iXX5X      = memspec.mempowerspec.idd5B;
         memPowerSpec[VPP].iXX5X      = memspec.mempowerspec.ipp5B;
         memTimingSpec.tRFC = memspec.memtimingspec.RFC1;
+        refreshMode = 1;
     }
     memPowerSpec[VDD].iBeta = memspec.mempowerspec.iBeta_vdd.value_or(memspec.mempowerspec.idd0);
     memPowerSpec[VPP].iBeta = memspec.mempowerspec.iBeta_vpp.value_or(memspec.mempowerspec.ipp0);
diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecDDR5.cpp
index fb403a8..0254abb 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecDDR5.cpp
@@ -13,6 +13,7 @@ MemSpecDDR5::MemSpecDDR5(const DRAMUtils::MemSpec::MemSpecDDR5 &memspec)
     memTimingSpec.tRAS      = memspec.memtimingspec.RAS;
     memTimingSpec.tRCD      = memspec.memtimingspec.RCD;
     memTimingSpec.tRTP      = memspec.memtimingspec.RTP;
+    memTimingSpec.tRL       = memspec.memtimingspec.RL;
     memTimingSpec.tWL       = memspec.memtimingspec.WL;
     memTimingSpec.tWR       = memspec.memtimingspec.WR;
     memTimingSpec.tRP       = memspec.memtimingspec.RP;
diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
index 5127b99..3442ec3 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR5.cpp
@@ -15,6 +15,7 @@ MemSpecLPDDR5::MemSpecLPDDR5(const DRAMUtils::MemSpec::MemSpecLPDDR5 &memspec)
     memTimingSpec.tRAS      = memspec.memtimingspec.RAS;
     memTimingSpec.tRCD      = memspec.memtimingspec.RCD_S;
     memTimingSpec.tRBTP     = memspec.memtimingspec.RBTP;
+    memTimingSpec.tRL       = memspec.memtimingspec.RL;
     memTimingSpec.tWL       = memspec.memtimingspec.WL;
     memTimingSpec.tWR       = memspec.memtimingspec.WR;
     memTimingSpec.tRP       = memspec.memtimingspec.RPpb;
diff --git a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR6.cpp b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR6.cpp
index c92440c..707d36c 100644
--- a/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR6.cpp
+++ b/src/DRAMPower/DRAMPower/memspec/MemSpecLPDDR6.cpp
@@ -17,6 +17,7 @@ MemSpecLPDDR6::MemSpecLPDDR6(const DRAMUtils::MemSpec::MemSpecLPDDR6 &memspec)
     memTimingSpec.tRCDR      = memspec.memtimingspec.RCD_r;
     memTimingSpec.tRCDW      = memspec.memtimingspec.RCD_w;
     memTimingSpec.tRBTP     = memspec.memtimingspec.RBTP;
+    memTimingSpec.tRL       = memspec.memtimingspec.RL;
     memTimingSpec.tWL       = memspec.memtimingspec.WL;
     memTimingSpec.tWR       = memspec.memtimingspec.WR;
     memTimingSpec.tRP       = memspec.memtimingspec.RPpb;
-- 
2.43.0


From baafe1f03b8899ecbe7bd85ac190c63924addde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 28/39] fix: inversion pins received their beats in the reverse
 order of the data bus

---
 src/DRAMPower/DRAMPower/util/dbi.h | 42 +++++++++++++++++-------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 90e868e..678c4ee 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -279,9 +279,7 @@ public:
         }
         
         // SAFETY: inverting the chunk while iterating over the data is safe because the invertedData is resized to the maximum size
-        auto invert_visitor = [this, &lastInvert, timestamp, read] (bool invert_chunk, const std::size_t chunk) {
-            dispatchCallback(timestamp, chunk, invert_chunk, read);
-
+        auto invert_visitor = [this, &lastInvert] (bool invert_chunk, const std::size_t chunk) {
             // Update the last inversion state
             lastInvert[chunk] = invert_chunk;
 
@@ -297,6 +295,9 @@ public:
             previous_iterator,
         IDLEPATTERN, std::move(invert_visitor));
 
+        // Report the inversion states beat by beat
+        dispatchCallbacks(timestamp, n_chunks, lastInvert, read);
+
         // Store burst information
         m_lastBurst.update(timestamp, m_width, m_burstLength, n_bits);
         lastBurstRead = read;
@@ -388,15 +389,23 @@ private:
         }
     }
 
-    void dispatchCallback(timestamp_t timestamp, std::size_t chunk, bool invert_chunk, bool read) {
-        std::optional<std::size_t> chunks_per_width = getChunksPerWidth();
-        if (nullptr != m_changeCallback) {
-            if (!chunks_per_width.has_value()) {
-                m_changeCallback(timestamp, timestamp, chunk, invert_chunk, read);
-            } else {
-                std::size_t beat_idx = chunk % chunks_per_width.value();
-                timestamp_t t = timestamp + (chunk / chunks_per_width.value());
-                m_changeCallback(timestamp, t, beat_idx, invert_chunk, read);
+    void dispatchCallbacks(timestamp_t timestamp, std::size_t n_chunks, const std::vector<bool>& inversions, bool read) {
+        if (nullptr == m_changeCallback) {
+            return;
+        }
+        const std::optional<std::size_t> chunks_per_width = getChunksPerWidth();
+        if (!chunks_per_width.has_value()) {
+            for (std::size_t chunk = 0; chunk < n_chunks; ++chunk) {
+                m_changeCallback(timestamp, timestamp, chunk, inversions[chunk], read);
+            }
+            return;
+        }
+        // The bus drives the most significant beat of the data first
+        const std::size_t beats = n_chunks / chunks_per_width.value();
+        for (std::size_t beat = 0; beat < beats; ++beat) {
+            const std::size_t first_chunk = (beats - 1 - beat) * chunks_per_width.value();
+            for (std::size_t chunk_idx = 0; chunk_idx < chunks_per_width.value(); ++chunk_idx) {
+                m_changeCallback(timestamp, timestamp + beat, chunk_idx, inversions[first_chunk + chunk_idx], read);
             }
         }
     }
@@ -426,14 +435,11 @@ private:
         if (nullptr != m_changeCallback) {
             timestamp_t t = m_lastBurst.end();
             if (getChunksPerWidth().has_value()) {
-                // First timestamp after the last chunk
-                std::size_t start = m_lastBurst.chunks() - getChunksPerWidth().value();
-                // Loop over the chunks/dbi_pins in the last pattern
-                for (std::size_t chunk = start; chunk < m_lastBurst.chunks(); ++chunk) {
-                    std::size_t chunk_idx = chunk % getChunksPerWidth().value(); // Pin index
+                // Loop over the chunks/dbi_pins of the beat driven last, which is the least significant one
+                for (std::size_t chunk = 0; chunk < getChunksPerWidth().value(); ++chunk) {
                     if (lastInvert[chunk]) {
                         // Reset the inversion state
-                        m_changeCallback(timestamp, t, chunk_idx, false, read);
+                        m_changeCallback(timestamp, t, chunk, false, read);
                     }
                     // Reset the inversion state for next pin updates
                     lastInvert[chunk] = false;
-- 
2.43.0


From cf983e1bd7d4af8c87715762a3ac0b4cbd43840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 29/39] fix: malformed fields in a command trace terminated the
 command line tool

---
 src/cli/lib/DRAMPower/cli/run.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 47253fb..6942aaa 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -97,6 +97,7 @@ std::unique_ptr<dram_base<CmdType>> getMemory(const std::string_view &data, cons
 }
 
 bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> &commandList)
+try
 {
 	// Read csv file
 	csv::CSVFormat format;
@@ -160,7 +161,12 @@ bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command
 	}
 
 	return true;
-};
+}
+catch (const std::exception&)
+{
+	// unreadable file or malformed field
+	return false;
+}
 
 bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
 {
-- 
2.43.0


From cd999d098ae18ebe508282ef34668fd1968f6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 30/39] fix: malformed hex digits in trace payloads were
 misread instead of rejected

---
 src/cli/lib/DRAMPower/cli/util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/util.cpp b/src/cli/lib/DRAMPower/cli/util.cpp
index 290b477..0ff3815 100644
--- a/src/cli/lib/DRAMPower/cli/util.cpp
+++ b/src/cli/lib/DRAMPower/cli/util.cpp
@@ -25,6 +25,12 @@ std::unique_ptr<uint8_t[]> util::hexStringToUint8Array(const csv::string_view da
 		hexString = data;
 	}
 	
+	// Check the digits, std::stoi would skip or ignore malformed ones
+	if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+	{
+		throw std::invalid_argument("Invalid hex string digit");
+	}
+
 	// Allocate memory for the array and fill it
 	auto content = std::make_unique<uint8_t[]>(size);
 	for (size_t i = 0; i < size; i++)
-- 
2.43.0


From 3dfcecb324a7fa67698ae05d5d5915c766da58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 31/39] fix: dual-bank refresh energy was missing from the
 printed bank energies

---
 src/cli/lib/DRAMPower/cli/util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/util.hpp b/src/cli/lib/DRAMPower/cli/util.hpp
index 96e56f7..b622a7f 100644
--- a/src/cli/lib/DRAMPower/cli/util.hpp
+++ b/src/cli/lib/DRAMPower/cli/util.hpp
@@ -81,7 +81,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               "REF_AB: {} "
                               "REF_PB: {} "
                               "REF_SB: {} "
-                              "REF_2B: {}",
+                              "REF_2B: {} "
+                              "REF_DB: {}",
                               ei.E_act,
                               ei.E_pre,
                               ei.E_bg_act,
@@ -95,7 +96,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               ei.E_ref_AB,
                               ei.E_ref_PB,
                               ei.E_ref_SB,
-                              ei.E_ref_2B);
+                              ei.E_ref_2B,
+                              ei.E_ref_DB);
     }
 };
 
-- 
2.43.0


From a55a3eb6495afa2a6899e65467e830b84383f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 32/39] fix: relative symlink targets of the output file were
 resolved against the working directory

---
 src/cli/main/validators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index 9ad3bb4..b7791c9 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -28,7 +28,8 @@ std::optional<ResolveSymlinkResult> resolve_symlink(const std::string &filepath,
     // The path exists and is a symlink -> resolve the symlink chain
     std::filesystem::path resolved = filepath;
     for (uint_fast8_t iter = 0; iter < max_iter; ++iter) {
-        resolved = std::filesystem::read_symlink(resolved);
+        // a relative target is relative to the directory of the symlink
+        resolved = resolved.parent_path() / std::filesystem::read_symlink(resolved);
         // Check if the provided path exists
         if (!std::filesystem::exists(resolved)) {
             // symlink resolved to a non-existing path
-- 
2.43.0


From 3e98ae37a8bbf3e355c12b1479788d60f09a596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 33/39] fix: symlink loops and unreadable output paths
 terminated the command line tool

---
 src/cli/main/validators.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index b7791c9..aef76c9 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -109,6 +109,7 @@ EnsureFileExists_t::EnsureFileExists_t() {
     name_ = "EnsureFileExists";
     non_modifying_ = false; // The validator modifies the input for a symlink
     func_ = [](std::string &filepath) {
+    try {
 // Check if file exists
         if (std::filesystem::is_symlink(filepath)) {
 // resolve symlink chain for at most MAX_SYMLINK_RESOLVE_ITERATIONS iterations
@@ -139,6 +140,10 @@ EnsureFileExists_t::EnsureFileExists_t() {
         // The filepath does not exist
 // Try to create the file in the parent directory
         return createFileInParentDirectory(filepath);
+    } catch (const std::filesystem::filesystem_error&) {
+        // e.g. a symlink loop
+        return std::string{"Could not resolve the path"};
+    }
     };
 }
 
-- 
2.43.0


From 1c7ba241a6e816b8e402a321bf376cab4d637a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 34/39] fix: --help continued with empty arguments and reported
 failure

---
 src/cli/main/main.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cli/main/main.cpp b/src/cli/main/main.cpp
index a756f18..3c3b2ec 100644
--- a/src/cli/main/main.cpp
+++ b/src/cli/main/main.cpp
@@ -18,7 +18,7 @@
 namespace cli11 = ::CLI; 
 using namespace DRAMPower;
 
-int parseArgs(int argc, char *argv[], std::string &configfile, std::string &tracefile, std::string &memspec, std::optional<std::string> &jsonfile)
+std::optional<int> parseArgs(int argc, char *argv[], std::string &configfile, std::string &tracefile, std::string &memspec, std::optional<std::string> &jsonfile)
 {
 	// Application description
 	cli11::App app{"DRAMPower v" DRAMPOWER_VERSION_STRING};
@@ -46,7 +46,7 @@ int parseArgs(int argc, char *argv[], std::string &configfile, std::string &trac
 	} catch(const cli11::ParseError &e) {
 		return app.exit(e);
 	}
-	return 0;
+	return std::nullopt;
 }
 
 int main(int argc, char *argv[])
@@ -56,10 +56,11 @@ int main(int argc, char *argv[])
 	std::string tracefile;
 	std::string memspec;
 	std::optional<std::string> jsonfile = std::nullopt;
-	int res = parseArgs(argc, argv, configfile, tracefile, memspec, jsonfile);
-	if(res != 0)
+	std::optional<int> res = parseArgs(argc, argv, configfile, tracefile, memspec, jsonfile);
+	if(res)
 	{
-		return res;
+		// parsing failed or help was requested
+		return *res;
 	}
 
 	// Set spdlog pattern
-- 
2.43.0


From 6225f7a724a80b088fc1bfaceb729b23c948665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 35/39] fix: failed writes of the result file were reported as
 success

---
 src/cli/lib/DRAMPower/cli/run.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 6942aaa..3c58a95 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -213,7 +213,7 @@ bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base
 	
 	out << j.dump(4) << std::endl;
 	out.close();
-	return true;
+	return !out.fail();
 }
 
 bool stdoutResult(const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
-- 
2.43.0


From 01f9a138362878fd671464b9170f72836732451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 36/39] fix: race between trace reader and its worker
 duplicated or dropped rows of large traces

---
 src/cli/lib/DRAMPower/cli/csv.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/csv.hpp b/src/cli/lib/DRAMPower/cli/csv.hpp
index 9cebfc2..310d3a6 100644
--- a/src/cli/lib/DRAMPower/cli/csv.hpp
+++ b/src/cli/lib/DRAMPower/cli/csv.hpp
@@ -7531,6 +7531,9 @@ namespace csv {
                         this->read_csv_worker.join();
 
                     this->read_csv_worker = std::thread(&CSVReader::read_csv, this, internals::ITERATION_CHUNK_SIZE);
+
+                    // The state checked above is not synchronized with a running worker
+                    this->read_csv_worker.join();
                 }
             }
             else if (this->records->front().size() != this->n_cols &&
-- 
2.43.0


From 9a419e3fb4425736d4ffc23d1d6b95207e041dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 37/39] fix: blank lines and line ends split between two read
 chunks rejected the whole trace

---
 src/cli/lib/DRAMPower/cli/run.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 3c58a95..0309dc4 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -120,6 +120,12 @@ try
 	for ( csv::CSVRow& row : reader ) {
 		rowidx = 0;
 
+		// Skip blank lines (a CRLF split between two chunks of the reader also appears as one)
+		if ( row.size() == 1 && row[0].get_sv().empty() )
+		{
+			continue;
+		}
+
 		// Read csv row
 		if ( row.size() < MINCSVSIZE )
 		{
-- 
2.43.0


From d4c0ff3f00e1396bab0017bc20bead3e03602191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 38/39] fix: encode row bits 18 to 23 of command patterns

---
 src/DRAMPower/DRAMPower/command/Pattern.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/command/Pattern.cpp b/src/DRAMPower/DRAMPower/command/Pattern.cpp
index b89392e..65d5521 100644
--- a/src/DRAMPower/DRAMPower/command/Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/command/Pattern.cpp
@@ -192,6 +192,24 @@ namespace DRAMPower {
             case R17:
                 bitset[n] = row_bits[17];
                 break;
+            case R18:
+                bitset[n] = row_bits[18];
+                break;
+            case R19:
+                bitset[n] = row_bits[19];
+                break;
+            case R20:
+                bitset[n] = row_bits[20];
+                break;
+            case R21:
+                bitset[n] = row_bits[21];
+                break;
+            case R22:
+                bitset[n] = row_bits[22];
+                break;
+            case R23:
+                bitset[n] = row_bits[23];
+                break;
 
                 default:
                 break;
-- 
2.43.0


From 6951927af95fb51ba43910ec269356dd75ee6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 39/39] fix: a rejected command does not become the last
 command of the core

The cores recorded the command's time before checking it, so after an
out-of-range rank or bank had been rejected getLastCommandTime() and
getStats() reported the time of the rejected command.
---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9ed2b40..52d07e4 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -7,7 +7,6 @@ namespace DRAMPower {
 
 void DDR4Core::doCommand(const Command& cmd) {
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
-    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
         case CmdType::ACT:
             util::coreHelpers::bankHandler(cmd, m_ranks, this, &DDR4Core::handleAct);
@@ -57,6 +56,7 @@ void DDR4Core::doCommand(const Command& cmd) {
             assert(false && "Unsupported command");
             break;
     }
+    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
 }
 
 timestamp_t DDR4Core::getLastCommandTime() const {
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index fe70f9e..4837531 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -5,7 +5,6 @@ namespace DRAMPower {
 
 void DDR5Core::doCommand(const Command& cmd) {
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
-    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
         case CmdType::ACT:
             util::coreHelpers::bankHandler(cmd, m_ranks, this, &DDR5Core::handleAct);
@@ -62,6 +61,7 @@ void DDR5Core::doCommand(const Command& cmd) {
             assert(false && "Unsupported command");
             break;
     }
+    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
 }
 
 timestamp_t DDR5Core::getLastCommandTime() const {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index 9acf224..8c0e6ba 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -5,7 +5,6 @@ namespace DRAMPower {
 
 void LPDDR4Core::doCommand(const Command& cmd) {
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
-    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
         case CmdType::ACT:
             util::coreHelpers::bankHandler(cmd, m_ranks, this, &LPDDR4Core::handleAct);
@@ -58,6 +57,7 @@ void LPDDR4Core::doCommand(const Command& cmd) {
             assert(false && "Unsupported command");
             break;
     }
+    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
 }
 
 timestamp_t LPDDR4Core::getLastCommandTime() const {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index 263740b..570a40e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -6,7 +6,6 @@ namespace DRAMPower {
 
 void LPDDR5Core::doCommand(const Command& cmd) {
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
-    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
         case CmdType::ACT:
             util::coreHelpers::bankHandler(cmd, m_ranks, this, &LPDDR5Core::handleAct);
@@ -71,6 +70,7 @@ void LPDDR5Core::doCommand(const Command& cmd) {
             assert(false && "Unsupported command");
             break;
     }
+    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
 }
 
 timestamp_t LPDDR5Core::getLastCommandTime() const {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index e0aabda..6d3090b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -8,7 +8,6 @@ namespace DRAMPower {
 
 void LPDDR6Core::doCommand(const LPDDR6Command& cmd) {
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
-    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
         case CmdType::ACT:
             util::coreHelpers::bankHandler(cmd, m_ranks, this, &LPDDR6Core::handleAct);
@@ -71,6 +70,7 @@ void LPDDR6Core::doCommand(const LPDDR6Command& cmd) {
             assert(false && "Unsupported command");
             break;
     }
+    m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
 }
 
 timestamp_t LPDDR6Core::getLastCommandTime() const {
-- 
2.43.0

