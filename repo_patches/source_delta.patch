From ae1c6ff78e19203ac69b8a6b871ebe622dc990ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 01/15] fix: Timepoint::advance_from of a negative duration

Casting a negative duration to the unsigned underlying duration moved the
time point by 2^64 source ticks and left a wrong remainder.
---
 src/clock/clock_timepoint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clock/clock_timepoint.hpp b/src/clock/clock_timepoint.hpp
index 25fd481..eda6f07 100644
--- a/src/clock/clock_timepoint.hpp
+++ b/src/clock/clock_timepoint.hpp
@@ -76,7 +76,8 @@ inline Timepoint Timepoint::epoch() noexcept {
 
 template<typename ChronoDuration>
 inline Timepoint Timepoint::advance_from(ChronoDuration& duration) const noexcept {
-    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);
+    // Signed representation: parameter may be negative
+    auto advance = std::chrono::duration_cast<Duration>(duration);
     duration -= std::chrono::duration_cast<ChronoDuration>(advance);
     return Timepoint{m_value + advance};
 }
-- 
2.43.0


From 4e3dc0411846790dcc29abb5ccf4b1f2a460fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 02/15] fix: undefined behaviour of abnf::eq_string for bytes
 above 0x7f

std::tolower requires a value representable as unsigned char.
---
 src/abnf/abnf.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/abnf/abnf.hpp b/src/abnf/abnf.hpp
index 72fb84e..cdc0ec1 100644
--- a/src/abnf/abnf.hpp
+++ b/src/abnf/abnf.hpp
@@ -41,7 +41,10 @@ inline bool eq_string(std::string_view v1, std::string_view v2) {
         return false;
     }
     for (std::string_view::size_type i = 0; i < v1.size(); ++i) {
-        if (std::tolower(v1[i]) != std::tolower(v2[i])) {
+        // Behaviour of tolower is undefined for negative values
+        const auto c1 = static_cast<unsigned char>(v1[i]);
+        const auto c2 = static_cast<unsigned char>(v2[i]);
+        if (std::tolower(c1) != std::tolower(c2)) {
             return false;
         }
     }
-- 
2.43.0


From f5e2e5670b64caa5d7313dd6d67621fd168e1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 03/15] fix: IP address text with an embedded zero byte was
 accepted up to that byte

---
 src/net/ip/ip_address.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/net/ip/ip_address.cpp b/src/net/ip/ip_address.cpp
index b6c0ccb..75392a4 100644
--- a/src/net/ip/ip_address.cpp
+++ b/src/net/ip/ip_address.cpp
@@ -14,6 +14,11 @@ namespace freewebrtc::net::ip {
 
 template<typename AddressType, typename InetStruct, int INET_FAMILY>
 Result<AddressType> inet_pton_adapter(const std::string_view& v) {
+    // inet_pton works on a C string: anything after an embedded
+    // zero byte would be silently ignored.
+    if (v.find('\0') != std::string_view::npos) {
+        return make_error_code(Error::ip_address_parse_error);
+    }
     InetStruct ip_addr;
     // IEEE Std 1003.1-2017:
     // The inet_pton() function shall return 1 if the conversion
-- 
2.43.0


From 170e4151803f60ec6d865dfd9ea11ee3c4d5fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 04/15] fix: MAPPED-ADDRESS and ALTERNATE-SERVER were built
 with address family 0

---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 3788ec5..f86b028 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -121,7 +121,7 @@ util::ByteVec MappedAddressAttribute::build() const {
                     return std::make_pair(attr_registry::FAMILY_IPV6, a.view());
                 }
             }, addr.value());
-    const uint32_t first_word = util::host_to_network_u32(port.value() | (family >> 16));
+    const uint32_t first_word = util::host_to_network_u32(port.value() | (family << 16));
     return util::ConstBinaryView::concat({
             util::ConstBinaryView(&first_word, sizeof(first_word)),
             view
-- 
2.43.0


From 17e57eea9ba87dd96ebc1cc05b27d41830e789e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 05/15] fix: a MAPPED-ADDRESS shorter than its header was
 rejected without being counted

---
 src/stun/stun_attribute.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index f86b028..21fd04c 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -80,7 +80,15 @@ Result<MappedAddressAttribute> MappedAddressAttribute::parse(const util::ConstBi
     auto family_rv = vv.read_u8(1).require();
     auto port_rv = vv.read_u16be(2)
         .require()
+        .bind_err([&](auto&& err) {
+            stat.error.inc();
+            stat.invalid_mapped_address.inc();
+            return err;
+        })
         .fmap(net::Port::from_uint16);
+    if (port_rv.is_err()) {
+        return port_rv.unwrap_err();
+    }
     const auto addr_view_rv = vv.subview(4).require();
     return combine(
         [&](auto&& family, auto&& port, auto&& addr_view) {
-- 
2.43.0


From d372ed2169a81fcfbe47865893543dff12ff7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 06/15] fix: reserved bits of ERROR-CODE were taken for part of
 the code

---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 21fd04c..2f13350 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -338,7 +338,7 @@ Result<ErrorCodeAttribute> ErrorCodeAttribute::parse(const util::ConstBinaryView
         })
         .fmap([&](uint32_t first_word) {
             return ErrorCodeAttribute{
-                .code = (first_word >> 8) * 100 + (first_word & 0xFF),
+                .code = ((first_word >> 8) & 0x7) * 100 + (first_word & 0xFF),
                 .reason_phrase = maybe_reason.fmap(
                     [](auto&& view) {
                         return std::string(view.begin(), view.end());
-- 
2.43.0


From 9eaf7771feb081e9c05bb9459fdfc5d6eb555fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 07/15] fix: refuse STUN messages whose two most significant
 bits are not zero

RFC 5389 section 6: the most significant 2 bits of every STUN message
MUST be zeroes. Message::parse took e.g. RTP packets (version bits 10)
of matching length for RFC 3489 requests.
---
 src/stun/stun_error.cpp      | 1 +
 src/stun/stun_error.hpp      | 3 ++-
 src/stun/stun_message.cpp    | 8 ++++++++
 src/stun/stun_parse_stat.hpp | 1 +
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_error.cpp b/src/stun/stun_error.cpp
index 0f0e9c6..1f2ea7b 100644
--- a/src/stun/stun_error.cpp
+++ b/src/stun/stun_error.cpp
@@ -38,6 +38,7 @@ public:
         case ParseError::error_code_attribute_size: return "invalid error code attribute size";
         case ParseError::unknown_attributes_attribute_size: return "invalid unknown attributes attribute size";
         case ParseError::unknown_addr_family:       return "unknown addr family";
+        case ParseError::invalid_message_type:      return "invalid message type";
         }
         return "unknown stun error";
     }
diff --git a/src/stun/stun_error.hpp b/src/stun/stun_error.hpp
index 2521942..725440d 100644
--- a/src/stun/stun_error.hpp
+++ b/src/stun/stun_error.hpp
@@ -33,7 +33,8 @@ enum class ParseError {
     use_candidate_size,
     error_code_attribute_size,
     unknown_attributes_attribute_size,
-    unknown_addr_family
+    unknown_addr_family,
+    invalid_message_type
 };
 
 enum class ClientError {
diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 237d54f..223a515 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -62,6 +62,14 @@ Result<Message> Message::parse(const util::ConstBinaryView& vv, ParseStat& stat)
     const uint16_t msg_length = vv.assured_read_u16be(2);
     const uint32_t magic_cookie = vv.assured_read_u32be(4);
 
+    // The most significant 2 bits of every STUN message MUST be zeroes.
+    // This can be used to differentiate STUN packets from other protocols
+    // when STUN is multiplexed with other protocols on the same port.
+    if ((msg_type & 0xC000) != 0) {
+        stat.error.inc();
+        stat.invalid_message_type.inc();
+        return make_error_code(ParseError::invalid_message_type);
+    }
     // The message length MUST contain the size, in bytes, of the message
     // not including the 20-byte STUN header.  Since all STUN attributes are
     // padded to a multiple of 4 bytes, the last 2 bits of this field are
diff --git a/src/stun/stun_parse_stat.hpp b/src/stun/stun_parse_stat.hpp
index 7105cef..38b520d 100644
--- a/src/stun/stun_parse_stat.hpp
+++ b/src/stun/stun_parse_stat.hpp
@@ -16,6 +16,7 @@ struct ParseStat {
     stat::Counter success;
     stat::Counter error;
     stat::Counter invalid_size;
+    stat::Counter invalid_message_type;
     stat::Counter not_padded;
     stat::Counter message_length_error;
     stat::Counter magic_cookie_error;
-- 
2.43.0


From 305b11a7e96483c81532d213db4222d3404f0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 08/15] fix: ignore a MESSAGE-INTEGRITY attribute that follows
 the first one

RFC 5389 section 15.4: all attributes after MESSAGE-INTEGRITY except
FINGERPRINT MUST be ignored. A second MESSAGE-INTEGRITY moved the end of
the protected text, so a correctly signed message was found not valid.
---
 src/stun/stun_message.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 223a515..ab504fc 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -293,6 +293,11 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
             // The text used as input to HMAC is the STUN message,
             // including the header, up to and including the attribute
             // preceding the MESSAGE-INTEGRITY attribute.
+            // A repeated MESSAGE-INTEGRITY follows the first one and is
+            // ignored as any other attribute there.
+            if (maybe_integrity_interval.is_some()) {
+                break;
+            }
             raw_attrs.emplace_back(raw_attr);
             maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
             break;
-- 
2.43.0


From 0e5439426c33d751c4df099c01ed34653ca56bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 09/15] fix: HMAC keys longer than a block were read from a
 hash that no longer exists

PadKey::from_key kept a view of the temporary digest of a key longer than
64 bytes and copied the key from it after the digest was gone.
---
 src/crypto/crypto_hmac.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/crypto/crypto_hmac.hpp b/src/crypto/crypto_hmac.hpp
index afcb894..371d3e6 100644
--- a/src/crypto/crypto_hmac.hpp
+++ b/src/crypto/crypto_hmac.hpp
@@ -67,21 +67,16 @@ template<uint8_t xorv>
 template<typename HashFunc>
 inline Result<PadKey<xorv>> PadKey<xorv>::from_key(const util::ConstBinaryView& view, HashFunc h)
 {
-    using ViewRV = Result<util::ConstBinaryView>;
-    return ViewRV(view)
-        .bind([&](auto&& v) -> ViewRV {
-            if (v.size() > B) {
-                // TODO: is result of v.view is valid after exit from this function?
-                return h({v}).fmap([](auto&& v) { return v.view(); });
-            } else {
-                return v;
-            }
-        })
-        .fmap([](auto&& v) {
-            Data data = {0};
-            std::copy(v.begin(), v.end(), data.begin());
-            return PadKey<xorv>(std::move(data));
-        });
+    const auto pad = [](const util::ConstBinaryView& v) {
+        Data data = {0};
+        std::copy(v.begin(), v.end(), data.begin());
+        return PadKey<xorv>(std::move(data));
+    };
+    if (view.size() > B) {
+        // The hash has to be copied while it exists.
+        return h({view}).fmap([&](auto&& hash) { return pad(hash.view()); });
+    }
+    return pad(view);
 }
 
 template<uint8_t xorv>
-- 
2.43.0


From 55fc871400790c4d6cb9689e4a9413b0a301ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 10/15] fix: an outdated round-trip history was still used for
 the path it belongs to

---
 src/stun/details/stun_client_udp_rto.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stun/details/stun_client_udp_rto.cpp b/src/stun/details/stun_client_udp_rto.cpp
index fd7362f..e5f1467 100644
--- a/src/stun/details/stun_client_udp_rto.cpp
+++ b/src/stun/details/stun_client_udp_rto.cpp
@@ -35,6 +35,8 @@ Duration ClientUDPRtoCalculator::rto(const net::Path& path) const {
 }
 
 void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Duration rtt) {
+    // Outdated history of this path must not be smoothed with the new value
+    clear_outdated(now);
     auto it = m_by_path.find(path);
     if (it == m_by_path.end()) {
         auto [it2, _] = m_by_path.emplace(path, Data{path, now});
@@ -43,7 +45,6 @@ void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Durat
     auto& data = it->second;
     data.last_update = now;
     m_timeline.push_back(data);
-    clear_outdated(now);
     // Clear backoff value for further requests
     data.backoff = none();
     // Update SRTT
@@ -72,6 +73,7 @@ void ClientUDPRtoCalculator::new_rtt(Timepoint now, const net::Path& path, Durat
 }
 
 void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Duration backoff) {
+    clear_outdated(now);
     auto it = m_by_path.find(path);
     if (it == m_by_path.end()) {
         auto [it, _] = m_by_path.emplace(path, Data{path, now, backoff});
@@ -82,7 +84,6 @@ void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Durat
     data.last_update = now;
     m_timeline.push_back(data);
     data.backoff = backoff;
-    clear_outdated(now);
 }
 
 void ClientUDPRtoCalculator::clear_outdated(Timepoint now) {
-- 
2.43.0


From 52e982efc28720d47d30f383d93535b11c08246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 11/15] fix: the maximum retransmission interval was used as a
 minimum

---
 src/stun/stun_client_udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 47d70d2..44ca5fd 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -464,7 +464,7 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
 
     auto timeout = m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::max(current, settings_max_rto);
+            return std::min(current, settings_max_rto);
         })
         .value_or(current);
     return std::make_pair(now.advance(timeout), timeout);
-- 
2.43.0


From 6d7f846c95a8dcc2f6c5e85fdde68779840194b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 12/15] fix: a request that is never repeated was given up
 without the final wait

---
 src/stun/stun_client_udp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 44ca5fd..f7196a2 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -413,6 +413,10 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
+    if (m_settings.request_count <= 1) {
+        // The first request is the last one too
+        m_last_timeout = m_initial_rto * m_settings.retransmission_multiplier;
+    }
     m_maybe_next = now.advance(m_last_timeout);
     return m_maybe_next;
 }
-- 
2.43.0


From acfbf115175761e9bed27181c35d5fb672f079a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 13/15] fix: a repeated response or a due retransmission after
 the outcome was queued

---
 src/stun/stun_client_udp.cpp | 15 ++++++++++-----
 src/stun/stun_client_udp.hpp |  2 ++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index f7196a2..e130dc9 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -68,12 +68,16 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
 
     return
         combine([&](auto&& trans, stun::Message&& msg, auto&&) {
+            // Handlers queue effect only when transaction is over
+            const auto num_effects = m_effects.size();
+            auto result = success();
             if (msg.header.cls == Class::success_response()) {
-                return handle_success_response(now, trans.get(), std::move(msg));
+                result = handle_success_response(now, trans.get(), std::move(msg));
             } else if (msg.header.cls == Class::error_response()) {
-                return handle_error_response(now, trans.get(), std::move(msg));
+                result = handle_error_response(now, trans.get(), std::move(msg));
             }
-            return success();
+            trans.get().finished = m_effects.size() != num_effects;
+            return result;
         }, std::move(trans_ref_rv), std::move(msg_rv), std::move(auth_err));
 }
 
@@ -82,7 +86,7 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
+        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
@@ -92,6 +96,7 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
                     return SendData{hnd, util::ConstBinaryView(t.msg_data)};
                 })
                 .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
+            t.finished = std::holds_alternative<TransactionFailed>(se);
             m_effects.emplace(std::move(se));
         } // When not found transaction were cleaned before.
     }
@@ -120,7 +125,7 @@ Result<ClientUDP::TransactionRef> ClientUDP::find_transaction(const TransactionI
     }
     auto hnd = i->second;
     auto j = m_tmap.find(hnd);
-    if (j == m_tmap.end()) {
+    if (j == m_tmap.end() || j->second.finished) {
         m_stat.transaction_not_found.inc();
         return make_error_code(ClientError::transaction_not_found);
     }
diff --git a/src/stun/stun_client_udp.hpp b/src/stun/stun_client_udp.hpp
index ef7ee7e..9d7ce23 100644
--- a/src/stun/stun_client_udp.hpp
+++ b/src/stun/stun_client_udp.hpp
@@ -120,6 +120,8 @@ private:
         Timepoint create_time;
         MaybeAuth maybe_auth;
         unsigned rtx_count = 0;
+        // Outcome is already queued in effects
+        bool finished = false;
     };
     using TransactionRef = std::reference_wrapper<Transaction>;
     using TimelineItem = std::pair<Timepoint, Handle>;
-- 
2.43.0


From 4a02f9cfd0578e4d4798a65d847adaeca5e07c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 14/15] fix: the timeout after a 5xx response did not move the
 next retransmission

---
 src/stun/stun_client_udp.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index e130dc9..e9d6478 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -25,6 +25,7 @@ public:
     };
     Process5xxResult process_5xx(Timepoint, int code);
     Duration last_timeout() const;
+    MaybeTimepoint scheduled() const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
     const Duration m_initial_rto;
@@ -84,10 +85,17 @@ MaybeError ClientUDP::response(Timepoint now, util::ConstBinaryView view, Maybe<
 ClientUDP::Effect ClientUDP::next(Timepoint now) {
     // Progress with pending transactions
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
+        const auto due = m_tid_timeline.top().first;
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
         if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
+            const bool rescheduled = t.rtx_algo->scheduled()
+                .fmap([&](auto&& timepoint) { return !(timepoint == due); })
+                .value_or(true);
+            if (rescheduled) {
+                continue; // 5xx response moved the next retransmit
+            }
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
                     m_stat.retransmits.inc();
@@ -342,6 +350,10 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         m_stat.response_5xx.inc();
         switch (t.rtx_algo->process_5xx(now, msg_error_code.code)) {
         case RetransmitAlgo::Process5xxResult::RetransmitScheduled:
+            t.rtx_algo->scheduled()
+                .with_inner([&](Timepoint&& timepoint) {
+                    m_tid_timeline.emplace(timepoint, t.hnd);
+                });
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
@@ -463,11 +475,15 @@ ClientUDP::Duration ClientUDP::RetransmitAlgo::last_timeout() const {
     return m_last_timeout;
 }
 
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::scheduled() const {
+    return m_maybe_next;
+}
+
 std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::RetransmitAlgo::calc_next(Timepoint now) const noexcept {
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
     }
-    auto current = m_rtx_count + 2 == m_settings.request_count
+    auto current = m_rtx_count + 2 == m_settings.request_count + m_5xx_count
         ? m_initial_rto * m_settings.retransmission_multiplier
         : m_last_timeout * 2;
 
-- 
2.43.0


From 600346edd0e9a0fe764e06d746cceaa18db746b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 15/15] fix: attributes or messages longer than 65535 bytes
 were built with a wrong length

---
 src/stun/stun_attribute_set.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute_set.cpp b/src/stun/stun_attribute_set.cpp
index 1c97b6c..080146c 100644
--- a/src/stun/stun_attribute_set.cpp
+++ b/src/stun/stun_attribute_set.cpp
@@ -8,11 +8,13 @@
 
 #include "stun/stun_attribute_set.hpp"
 #include "stun/stun_header.hpp"
+#include "stun/stun_error.hpp"
 #include "stun/details/stun_fingerprint.hpp"
 #include "util/util_variant_overloaded.hpp"
 #include "util/util_unit.hpp"
 #include "util/util_endian.hpp"
 #include <iostream>
+#include <limits>
 
 namespace freewebrtc::stun {
 
@@ -137,9 +139,13 @@ Result<util::ByteVec> AttributeSet::build(const Header& header, const MaybeInteg
     std::vector<uint32_t> attr_headers(num_attrs);
     auto attr_headers_it = attr_headers.begin();
     const uint32_t padding = 0;
-    uint32_t total_size = 0;
+    size_t total_size = 0;
+    // Length of attribute and length of message are 16 bit fields
+    constexpr size_t max_length = std::numeric_limits<uint16_t>::max();
+    bool attr_too_long = false;
 
     auto add_attr = [&](auto type, const auto& view) {
+        attr_too_long = attr_too_long || view.size() > max_length;
         *attr_headers_it = util::host_to_network_u32((type << 16) | view.size());
         result.emplace_back(util::ConstBinaryView(&*attr_headers_it, sizeof(uint32_t)));
         total_size += sizeof(uint32_t);
@@ -244,6 +250,15 @@ Result<util::ByteVec> AttributeSet::build(const Header& header, const MaybeInteg
     }
 
 
+    if (attr_too_long) {
+        return make_error_code(ParseError::invalid_attr_size);
+    }
+    const size_t integrity_size = maybe_integrity.is_some() ? details::STUN_ATTR_HEADER_SIZE + crypto::SHA1Hash::size : 0;
+    const size_t fingerprint_size = has_fingerprint() ? details::STUN_ATTR_HEADER_SIZE + details::FINGERPRINT_CRC_SIZE : 0;
+    if (total_size + integrity_size + fingerprint_size > max_length) {
+        return make_error_code(ParseError::invalid_message_len);
+    }
+
     Maybe<Result<MessageIntegityAttribute::Digest>> maybe_integrity_digest_rv = none();
     auto add_integrity = [&](auto&& integrity) -> MaybeError {
         const auto& h = integrity.hash;
-- 
2.43.0

