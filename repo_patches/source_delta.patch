From 5e50cff1b79b42b592e6207023a1bb2709d1b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 01/17] fix: add the missing helpers/bytes_to_string.hpp that
 common/bytes.hpp includes

---
 helpers/bytes_to_string.hpp | 45 +++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)
 create mode 100644 helpers/bytes_to_string.hpp

diff --git a/helpers/bytes_to_string.hpp b/helpers/bytes_to_string.hpp
new file mode 100644
index 0000000..ae2c44e
--- /dev/null
+++ b/helpers/bytes_to_string.hpp
@@ -0,0 +1,45 @@
+/*  bytes_to_string.hpp
+ *
+ *  This file is part of Mammon.
+ *  mammon is a greedy and selfish ETH consensus client.
+ *
+ *  Copyright (c) 2021 - Reimundo Heluani (potuz) potuz@potuz.net
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#pragma once
+#include <array>
+#include <cstddef>
+#include <cstdint>
+#include <string>
+
+namespace helpers {
+
+template <std::size_t N>
+std::string bytes_to_string(const std::array<std::uint8_t, N>& arr) {
+    constexpr auto digits = "0123456789abcdef";
+    constexpr auto bits_per_digit = 4;
+    constexpr auto low_digit = 0xf;
+
+    std::string ret{"0x"};
+    ret.reserve(2 * N + 2);
+    for (auto byte : arr) {
+        ret.push_back(digits[byte >> bits_per_digit]);
+        ret.push_back(digits[byte & low_digit]);
+    }
+    return ret;
+}
+
+}  // namespace helpers
-- 
2.43.0


From aea7fb986f5c0dadeaf534d6eda2146f07134c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 02/17] fix: include the headers helpers/bytes_to_int.hpp
 relies on

---
 helpers/bytes_to_int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..846b217 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -23,7 +23,9 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <string>
+#include <string_view>
 
 namespace {
 struct Table {
-- 
2.43.0


From 00385cc5fb30b77d3a40fbe053ee392717008437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 03/17] fix: define the slashing types before the block body
 that holds lists of them

---
 beacon-chain/beacon_block.hpp | 111 +++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 57 deletions(-)

diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..c9e3de2 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -109,8 +109,60 @@ struct SignedVoluntaryExit : public ssz::Container {
     }
 };
 
-struct ProposerSlashing;
-struct AttesterSlashing;
+struct SignedBeaconBlockHeader : public ssz::Container {
+    BeaconBlockHeader message;
+    BLSSignature signature;
+
+    static constexpr std::size_t ssz_size = 208;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
+    BytesVector serialize() const override { return serialize_({&message, &signature}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&message, &signature});
+    }
+
+    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"message", &message}, {"signature", &signature}});
+    }
+};
+
+struct ProposerSlashing : public ssz::Container {
+    SignedBeaconBlockHeader signed_header_1, signed_header_2;
+
+    static constexpr std::size_t ssz_size = 416;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
+    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
+    }
+
+    YAML::Node encode() const override {
+        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+};
+
+struct AttesterSlashing : public ssz::Container {
+    IndexedAttestation attestation_1, attestation_2;
+
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
+    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&attestation_1, &attestation_2});
+    }
+    YAML::Node encode() const override {
+        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+};
 
 class BeaconBlockBody : public ssz::Container {
    private:
@@ -229,61 +281,6 @@ class BeaconBlock : public ssz::Container {
     }
 };
 
-struct SignedBeaconBlockHeader : public ssz::Container {
-    BeaconBlockHeader message;
-    BLSSignature signature;
-
-    static constexpr std::size_t ssz_size = 208;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
-    BytesVector serialize() const override { return serialize_({&message, &signature}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&message, &signature});
-    }
-
-    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"message", &message}, {"signature", &signature}});
-    }
-};
-
-struct ProposerSlashing : public ssz::Container {
-    SignedBeaconBlockHeader signed_header_1, signed_header_2;
-
-    static constexpr std::size_t ssz_size = 416;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
-    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
-    }
-
-    YAML::Node encode() const override {
-        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-};
-
-struct AttesterSlashing : public ssz::Container {
-    IndexedAttestation attestation_1, attestation_2;
-
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
-    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&attestation_1, &attestation_2});
-    }
-    YAML::Node encode() const override {
-        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-};
-
 struct SignedBeaconBlock : public ssz::Container {
     BeaconBlock message;
     BLSSignature signature;
-- 
2.43.0


From 62f7da166da598a74fba82b51f28de05d31d3d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 04/17] fix: compare all fields in the equality of types that
 inherited the always-true comparison

---
 beacon-chain/attestation.hpp  |  9 +++++++++
 beacon-chain/beacon_block.hpp | 13 +++++++++++++
 beacon-chain/deposits.hpp     |  8 ++++++++
 beacon-chain/eth1data.hpp     |  3 +++
 beacon-chain/validator.hpp    |  2 ++
 common/containers.hpp         | 13 +++++++++++++
 6 files changed, 48 insertions(+)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..2dc2b4c 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -44,6 +44,8 @@ struct AttestationData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
 
+    bool operator==(const AttestationData &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -58,6 +60,8 @@ struct IndexedAttestation : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_valid(const eth::BeaconState& state) const; 
 
+    bool operator==(const IndexedAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -72,6 +76,8 @@ struct PendingAttestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
 
+    bool operator==(const PendingAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -85,6 +91,9 @@ struct Attestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     
+
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index c9e3de2..977cb13 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -121,6 +121,8 @@ struct SignedBeaconBlockHeader : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
@@ -139,6 +141,8 @@ struct ProposerSlashing : public ssz::Container {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
 
+    bool operator==(const ProposerSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
     }
@@ -155,6 +159,9 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -211,6 +218,8 @@ class BeaconBlockBody : public ssz::Container {
                              &attestations_, &deposits_, &voluntary_exits_});
     }
 
+    bool operator==(const BeaconBlockBody &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
                         {"eth1_data", &eth1_data_},
@@ -264,6 +273,8 @@ class BeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
 
+    bool operator==(const BeaconBlock &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
                         {"proposer_index", &proposer_index_},
@@ -291,6 +302,8 @@ struct SignedBeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlock &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..cbb388f 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,9 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +74,9 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -98,6 +104,8 @@ struct Deposit : public ssz::Container {
         return deserialize_(it, end, {&proof, &data});
     }
 
+    bool operator==(const Deposit &) const = default;
+
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"proof", &proof}, {"data", &data}}); }
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..064eed4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,9 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..0267477 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -46,6 +46,8 @@ class Validator : public ssz::Container {
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
 
+    bool operator==(const Validator &) const = default;
+
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
 };
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..7cd2209 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -89,6 +89,8 @@ class VectorFixedSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const VectorFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
 };
@@ -153,6 +155,9 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -228,6 +233,8 @@ class ListVariableSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const ListVariableSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -279,6 +286,8 @@ struct ForkData : public ssz::Container {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
 
+    bool operator==(const ForkData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
     }
@@ -301,6 +310,8 @@ struct Checkpoint : public ssz::Container {
         return deserialize_(it, end, {&epoch, &root});
     }
 
+    bool operator==(const Checkpoint &) const = default;
+
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"epoch", &epoch}, {"root", &root}}); }
@@ -319,6 +330,8 @@ struct SigningData : public ssz::Container {
         return deserialize_(it, end, {&object_root, &domain});
     }
 
+    bool operator==(const SigningData &) const = default;
+
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
     bool decode(const YAML::Node &node) override {
-- 
2.43.0


From d3525d074dc45d708dc48c074aec7a5b4831962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 05/17] fix: reject bit lists without delimiter bit, and empty
 input, when decoding them

---
 common/bitlist.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..702fb8d 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -50,10 +50,13 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    m_arr.clear();
+    if (it == end) return false;
     auto last = end;
     --last;
+    // the last byte holds the delimiter bit
+    if (*last == 0) return false;
     int msb = std::countl_zero(*last);
-    m_arr.clear();
 
     for (auto i = it; i != last; ++i)
         for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);
@@ -74,7 +77,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("invalid bitlist");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From cae5187e1198fd18440ba7588886aa18cc71cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 06/17] fix: reject trailing bytes when decoding containers of
 fixed size

---
 ssz/ssz_container.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..62c8a18 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,9 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    // without variable sized parts nothing may follow the fixed ones
+    return it == end;
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From ea5ff1d78ef19fb81574dc618c0c68c8bd7d1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 07/17] fix: zero the bits of default constructed bit vectors

---
 common/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..7272c43 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -35,7 +35,7 @@ namespace eth {
 template <unsigned N>
 class Bitvector : public ssz::Container {
    private:
-    std::array<bool, N> m_arr;
+    std::array<bool, N> m_arr{};
 
    public:
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
-- 
2.43.0


From 2a699aed6ef630efd5701c35b1cdf3bd597dae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 08/17] fix: reject non-zero padding bits and oversized text
 when decoding bit vectors

---
 common/bitvector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 7272c43..d8d24d1 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -47,6 +47,7 @@ class Bitvector : public ssz::Container {
     void from_hexstring(const std::string &str) {
         if (!str.starts_with("0x")) throw std::invalid_argument("string not prepended with 0x");
         if (str.length() % 2 != 0) throw std::invalid_argument("string of odd length");
+        if (str.length() > 2 * ssz_size + 2) throw std::out_of_range("string longer than bitvector size");
 
         std::uint8_t buffer = 0;
         std::vector<std::uint8_t> hex;
@@ -82,6 +83,8 @@ class Bitvector : public ssz::Container {
     }
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         if (std::distance(it, end) != (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE) return false;
+        // the bits after the last one have to be zero
+        if (N % constants::BITS_PER_BYTE && *(end - 1) >> (N % constants::BITS_PER_BYTE)) return false;
         for (auto i = it; i != end; ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
-- 
2.43.0


From f03ca6d995d47ce7a96040cc671e7047d0772b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 09/17] fix: print the bytes of bit lists and bit vectors as
 hexadecimal numbers, not as characters

---
 common/bitlist.cpp   | 2 +-
 common/bitvector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 702fb8d..29ab6c2 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -85,7 +85,7 @@ std::string Bitlist::to_string() const {
     std::ios_base::fmtflags save = std::cout.flags();
     auto serial = this->serialize();
     os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
+    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << +*i;
     std::cout.flags(save);
     return os.str();
 };
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index d8d24d1..f3a7b0b 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -67,7 +67,7 @@ class Bitvector : public ssz::Container {
         auto serial = this->serialize();
         os << "0x";
         for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
+            os << std::setfill('0') << std::setw(2) << std::hex << +*i;
         std::cout.flags(save);
         return os.str();
     };
-- 
2.43.0


From c6c6bf4942fca8ad2e820b04cc7a4a1bcbe988a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 10/17] fix: reject lists and bit lists longer than their limit
 when decoding them

---
 common/bitlist.cpp    |  2 ++
 common/containers.hpp | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 29ab6c2..183cd3b 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -57,6 +57,8 @@ bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
     // the last byte holds the delimiter bit
     if (*last == 0) return false;
     int msb = std::countl_zero(*last);
+    auto length = std::distance(it, last) * constants::BITS_PER_BYTE + constants::BITS_PER_BYTE - 1 - msb;
+    if (limit_ && length > limit_) return false;
 
     for (auto i = it; i != last; ++i)
         for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);
diff --git a/common/containers.hpp b/common/containers.hpp
index 7cd2209..695009b 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -147,6 +147,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -159,7 +160,9 @@ class ListFixedSizedParts : public ssz::Container {
     bool operator==(const ListFixedSizedParts &) const = default;
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        return YAML::convert<std::vector<T>>::decode(node, m_arr) && (limit_ == 0 || m_arr.size() <= limit_);
+    }
 };
 
 template <class T>
@@ -211,6 +214,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto start = it;
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         if (std::distance(start, end) < first_offset) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
@@ -236,7 +240,9 @@ class ListVariableSizedParts : public ssz::Container {
     bool operator==(const ListVariableSizedParts &) const = default;
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        return YAML::convert<std::vector<T>>::decode(node, m_arr) && (limit_ == 0 || m_arr.size() <= limit_);
+    }
 };
 
 struct Fork : public ssz::Container {
-- 
2.43.0


From 6cc6771cc34ef09892f14f44d20f816b7b930e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 11/17] fix: refuse to hash more chunks than the limit, the
 cache is too small for them

---
 ssz/hashtree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..79cbd62 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -111,6 +111,7 @@ HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
         hash_tree_ = chunks;
     else {
         if (chunks.empty()) throw std::out_of_range("empty chunks is not allowed");
+        if (limit != 0 && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
         auto effective_depth = helpers::log2ceil(chunks.size());
         auto depth = (limit == 0) ? effective_depth : helpers::log2ceil(limit);
         auto cache_size = depth - effective_depth + std::bit_ceil(chunks.size()) - 1;
-- 
2.43.0


From 2d3f8ef4fb3da0caa21729ff448a26d2f7396706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 12/17] fix: report no extension when the processor lacks the
 feature leaf

---
 ssz/hasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..a8d6737 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -42,7 +42,7 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
-    std::uint32_t a, b, c, d;  // NOLINT
+    std::uint32_t a{0}, b{0}, c{0}, d{0};
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
     if (b & bit_AVX2) ret = ret | IMPL::AVX2;
-- 
2.43.0


From 1b8ca3da954e6d3e0164736a96361c7b993b5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 13/17] fix: byte order of the genesis fork version of the
 minimal preset

---
 config/minimal.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/minimal.hpp.in b/config/minimal.hpp.in
index 613fcdd..32abd76 100644
--- a/config/minimal.hpp.in
+++ b/config/minimal.hpp.in
@@ -30,7 +30,7 @@ namespace constants {
 
 constexpr std::uint64_t MIN_GENESIS_ACTIVE_VALIDATOR_COUNT = 64;
 constexpr std::uint64_t MIN_GENESIS_TIME = 1578009600;
-constexpr const eth::Version GENESIS_FORK_VERSION{0x00000001};
+constexpr const eth::Version GENESIS_FORK_VERSION{"0x00000001"};
 constexpr std::uint64_t GENESIS_DELAY = 300;
 
 // ALTAIR_FORK_VERSION: 0x01000001
-- 
2.43.0


From 5a8fd2826ca1f2dc1e8886730a5b7f9c088b5441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 14/17] fix: keep the state of the two block loop on the stack,
 concurrent calls shared it

---
 ssz/sha256_shani.asm | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..ec41c30 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -78,6 +78,16 @@ struc frame
 endstruc
 %endif
 
+; the two block loop saves its state here, on the stack: the function may run in several threads at once
+%define FRAMESAVE	r10
+
+struc save_frame
+.abef_a:	resdq	1
+.cdgh_a:	resdq	1
+.abef_b:	resdq	1
+.cdgh_b:	resdq	1
+endstruc
+
 %define MSG		xmm0
 %define STATE0		xmm1
 %define STATE1		xmm2
@@ -125,6 +135,10 @@ sha256_shani:
 	movdqa		[rsp + frame.xmm_save + 4*16], xmm10
 %endif
 
+	mov		FRAMESAVE, rsp
+	sub		rsp, save_frame_size
+	and		rsp, ~0xF
+
 	movdqa		SHUF_MASK, [PSHUFFLE_BYTE_FLIP_MASK wrt rip]
 	lea		SHA256CONSTANTS,[K256 wrt rip]
 	lea		SHA256PADDING,[PADDING wrt rip]
@@ -477,10 +491,10 @@ sha256_shani:
         ;; Rounds with PADDING
         
 	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	movdqa		[rsp + save_frame.abef_a], STATE0
+	movdqa		[rsp + save_frame.cdgh_a], STATE1
+	movdqa		[rsp + save_frame.abef_b], STATE0b
+	movdqa		[rsp + save_frame.cdgh_b], STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +622,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, [rsp + save_frame.abef_a]
+	paddd		STATE1, [rsp + save_frame.cdgh_a]
+	paddd           STATE0b, [rsp + save_frame.abef_b]
+	paddd		STATE1b, [rsp + save_frame.cdgh_b]
 
 
 	;; Write hash values back in the correct order
@@ -959,6 +973,7 @@ sha256_shani:
 	movdqu		[OUTPUT_PTR + 1*16], STATE1
 
 .done_hash:
+	mov		rsp, FRAMESAVE
 %ifdef WINABI
 	movdqa		xmm6,  [rsp + frame.xmm_save + 0*16]
 	movdqa		xmm7,  [rsp + frame.xmm_save + 1*16]
@@ -1013,13 +1028,3 @@ PADDING:
         dd      0x521afaca, 0x31338431, 0x6ed41a95, 0x6d437890
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
-
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From fecb9986e163db76e45b27f7efacf00c31153309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 15/17] fix: reject characters that are not hexadecimal digits,
 which were read as zeros or from outside of the table

---
 helpers/bytes_to_int.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 846b217..04320f9 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -24,6 +24,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -31,6 +32,8 @@ namespace {
 struct Table {
     std::array<long long, 128> tab;
     constexpr Table() : tab{} {
+        tab.fill(-1);
+        tab['0'] = 0;
         tab['1'] = 1;
         tab['2'] = 2;
         tab['3'] = 3;
@@ -53,7 +56,11 @@ struct Table {
         tab['f'] = 15;
         tab['F'] = 15;
     }
-    constexpr long long operator[](char const idx) const { return tab[(std::size_t)idx]; }
+    constexpr long long operator[](char const idx) const {
+        auto pos = static_cast<unsigned char>(idx);
+        if (pos >= tab.size() || tab[pos] < 0) throw std::invalid_argument("not a hexadecimal digit");
+        return tab[pos];
+    }
 } constexpr table;
 }  // namespace
 
@@ -66,7 +73,7 @@ requires(std::unsigned_integral<T>) T to_integer_little_endian(const std::uint8_
     return *ptr;
 }
 
-constexpr int hextoint(char number) { return table[(std::size_t)number]; }
+constexpr int hextoint(char number) { return table[number]; }
 
 constexpr int strhex2int(std::string_view const &str) {
     int ret = 0;
-- 
2.43.0


From d79914f591b46aa5d7c001c69669e14c85305d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 16/17] fix: limits above 2^42 chunks read past the end of the
 zero hashes

---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 79cbd62..4ff1c59 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -39,7 +39,7 @@ Chunk hash_2_chunks(const Chunk& first, const Chunk& second, const Hasher& hashe
     return ret;
 }
 // clang-format off
-const auto ZERO_HASH_DEPTH{42};
+const auto ZERO_HASH_DEPTH{65};  // a limit is a 64 bit number
 constexpr Chunk zero_hash{};
 
 template <std::size_t N> requires(N > 0)
-- 
2.43.0


From 379341b01d93397079cf0f3ec0beab7628adf530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 17/17] fix: pack the booleans of vectors and lists when
 merkleizing

---
 common/containers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/containers.hpp b/common/containers.hpp
index 695009b..a3c3a63 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -25,6 +25,7 @@
 #include <cstdint>
 #include <iterator>
 
+#include "common/boolean.hpp"
 #include "common/slot.hpp"
 #include "ssz/hashtree.hpp"
 #include "ssz/ssz.hpp"
@@ -35,7 +36,7 @@ namespace eth
 
 {
 template <class T>
-concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot>;
+concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot> || std::is_same_v<T, Boolean>;
 
 template <class T, std::size_t N>
 class VectorFixedSizedParts : public ssz::Container {
-- 
2.43.0

