From e513df82ecc6ee4a82f2158b8f6bfe00965c3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 01/56] fix: base64UrlDecode accepted characters outside the
 alphabet and non-canonical trailing bits

---
 include/HXLibs/net/protocol/codec/Base64Url.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/HXLibs/net/protocol/codec/Base64Url.hpp b/include/HXLibs/net/protocol/codec/Base64Url.hpp
index eff12a9..46cb212 100644
--- a/include/HXLibs/net/protocol/codec/Base64Url.hpp
+++ b/include/HXLibs/net/protocol/codec/Base64Url.hpp
@@ -109,6 +109,19 @@ inline std::string base64UrlDecode(std::string_view input) {
     std::string out(fullBlocks * 3 + (rem ? rem - 1 : 0), '\0');
 
     const uint8_t* inPtr  = reinterpret_cast<const uint8_t*>(input.data());
+    for (std::size_t i = 0; i < len; ++i) {
+        if (kDecodeTable[inPtr[i]] == 0xFF) [[unlikely]] {
+            throw std::runtime_error("invalid base64 character");
+        }
+    }
+
+    // 末尾未用到的比特必须为 0, 否则不是规范编码
+    if ((rem == 2 && (kDecodeTable[inPtr[len - 1]] & 0x0F))
+        || (rem == 3 && (kDecodeTable[inPtr[len - 1]] & 0x03))
+    ) [[unlikely]] {
+        throw std::runtime_error("invalid base64 trailing bits");
+    }
+
     uint8_t* outPtr = reinterpret_cast<uint8_t*>(out.data());
 
     // 处理整块 4 字符
-- 
2.43.0


From 159284fce901cd640b857ba9ebf0b33c930013a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 02/56] fix: URL host, port and credentials were taken from
 anywhere in the text (dotless hosts rejected; user info, path or query
 mistaken for host, port or user; ports out of range accepted)

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 98 +++++++++++++-------
 1 file changed, 62 insertions(+), 36 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 032bf0d..dc4d1ec 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -22,7 +22,6 @@
 #include <string_view>
 #include <optional>
 #include <cstdint>
-#include <regex>
 #include <stdexcept>
 
 #include <HXLibs/container/CHashMap.hpp>
@@ -84,13 +83,43 @@ struct UrlParse {
      * @return std::string DomainName
      */
     static std::string extractDomainName(std::string const& url) {
-        std::regex urlRegex(R"([a-zA-Z0-9][-a-zA-Z0-9]{0,62}(\.[a-zA-Z0-9][-a-zA-Z0-9]{0,62})+\.?)");
-        std::smatch urlMatch;
-        if (std::regex_search(url, urlMatch, urlRegex)) {
-            return urlMatch.str();
-        } else {
+        std::string_view host = extractHostPort(url);
+        host = host.substr(0, host.find(':'));
+        // 标签由字母数字和 '-' 组成, 以字母数字开头, 标签之间用单个 '.' 分隔
+        char prev = '.';
+        for (char c : host) {
+            bool isAlnum = ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9');
+            if (!isAlnum && (prev == '.' || (c != '-' && c != '.'))) [[unlikely]] {
+                throw std::invalid_argument("Invalid URL format: " + url);
+            }
+            prev = c;
+        }
+        if (host.empty()) [[unlikely]] {
             throw std::invalid_argument("Invalid URL format: " + url);
         }
+        return std::string{host};
+    }
+
+    /**
+     * @brief 从 URL 提取 authority 部分 (`://` 之后, 到路径/参数/锚点之前), 如`http://u:p@a.com:80/x -> u:p@a.com:80`
+     */
+    static std::string_view extractAuthority(std::string_view url) {
+        std::size_t protocolFind = url.find("://");
+        std::size_t end = url.find_first_of("/?#");
+        if (protocolFind != std::string_view::npos && protocolFind < end) {
+            url = url.substr(protocolFind + 3);
+            end = url.find_first_of("/?#");
+        }
+        return url.substr(0, end);
+    }
+
+    /**
+     * @brief 从 URL 提取 authority 去掉用户信息后的部分, 如`http://u:p@a.com:80/x -> a.com:80`
+     */
+    static std::string_view extractHostPort(std::string_view url) {
+        std::string_view authority = extractAuthority(url);
+        std::size_t userFind = authority.rfind('@');
+        return userFind == std::string_view::npos ? authority : authority.substr(userFind + 1);
     }
 
     /**
@@ -113,21 +142,19 @@ struct UrlParse {
      * @return pair<用户名, 密码>, 如果解析不到, 则返回 std::nullopt
      */
     static std::optional<AccountInfo> extractUser(std::string_view url) {
-        std::size_t findEnd = url.find('@');
+        std::string_view authority = extractAuthority(url);
+        std::size_t findEnd = authority.rfind('@');
         if (findEnd == std::string_view::npos) {
             return std::nullopt;
         }
-        std::size_t findMid = url.rfind(':', findEnd - 1);
-        std::size_t findStart = url.rfind('/', findMid - 1);
-        if (findStart == std::string_view::npos) {
-            return std::optional{AccountInfo{
-                url.substr(0, findMid), 
-                url.substr(findMid + 1, findEnd - findMid - 1)
-            }};
+        std::string_view user = authority.substr(0, findEnd);
+        std::size_t findMid = user.find(':');
+        if (findMid == std::string_view::npos) {
+            return std::optional{AccountInfo{user, {}}};
         }
         return std::optional{AccountInfo{
-            url.substr(findStart + 1, findMid - findStart - 1), 
-            url.substr(findMid + 1, findEnd - findMid - 1)
+            user.substr(0, findMid),
+            user.substr(findMid + 1)
         }};
     }
 
@@ -206,29 +233,28 @@ private:
     std::string _service {};
 
     void parseUrl(std::string_view url) {
-        std::size_t protocolFind = url.find("://");
-        std::size_t userFind = url.find('@', protocolFind == std::string_view::npos ? 0 : protocolFind + 1);
-        if (userFind == std::string_view::npos)
-            userFind = protocolFind;
-        std::size_t portFind = url.find(':', userFind == std::string_view::npos ? 0 : userFind + 1);
-
-        if (protocolFind == std::string_view::npos && portFind == std::string_view::npos) {
-            // 没有协议和端口，默认服务为 "http"
-            _service = "http";
-        } else {
-            if (portFind != std::string_view::npos) {
-                // 有端口，提取端口号
-                std::size_t start = portFind + 1;
-                std::size_t end = url.find_first_not_of("0123456789", start);
-                _service = url.substr(start, end - start);
-            } else if (protocolFind != std::string_view::npos) {
-                // 有协议但没有端口
-                _service = url.substr(0, protocolFind);
+        _hostname = UrlParse::extractDomainName({url.data(), url.size()});
+
+        std::string_view hostPort = UrlParse::extractHostPort(url);
+        std::size_t portFind = hostPort.find(':');
+        if (portFind != std::string_view::npos && portFind + 1 < hostPort.size()) {
+            // 有端口，提取端口号
+            std::string_view port = hostPort.substr(portFind + 1);
+            if (port.size() > 5 || port.find_first_not_of("0123456789") != std::string_view::npos
+                || std::stoi(std::string{port}) > 65535
+            ) [[unlikely]] {
+                throw std::invalid_argument("Invalid URL port: " + std::string{url});
             }
+            _service = port;
+            return;
         }
-        _hostname = UrlParse::extractDomainName({url.data(), url.size()});
+
+        // 没有端口: 使用协议作为服务; 没有协议则默认服务为 "http"
+        std::size_t protocolFind = url.find("://");
+        _service = protocolFind != std::string_view::npos && protocolFind < url.find_first_of("/?#")
+            ? url.substr(0, protocolFind)
+            : "http";
     }
 };
 
 } // namespace HX::net
-
-- 
2.43.0


From bb737c065bdb11203f3db18a6f6f316a782320b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 03/56] fix: splitting by an empty delimiter looped for ever

---
 include/HXLibs/utils/StringUtils.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index 6575e1a..ed9133e 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -60,6 +60,10 @@ struct StringUtil final {
     ) {
         if (str.empty()) 
             return res;
+        if (delim.empty()) [[unlikely]] { // 空分隔符不会切割字符串
+            res.emplace_back(str);
+            return res;
+        }
 
         std::size_t start = 0;
         std::size_t end = str.find(delim, start);
@@ -105,6 +109,10 @@ struct StringUtil final {
     ) {
         if (str.empty()) 
             return res;
+        if (delim.empty()) [[unlikely]] { // 空分隔符不会切割字符串
+            res.emplace_back(0, str);
+            return res;
+        }
 
         std::size_t start = 0;
         std::size_t end = str.find(delim, start);
-- 
2.43.0


From d46a7c6aa718dd1bdc57b757e962abdc8df18735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 04/56] fix: toLower/toUpper changed characters that are not
 letters

---
 include/HXLibs/utils/StringUtils.hpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index ed9133e..d650a95 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -167,16 +167,10 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toLower(std::string& str) {
-        size_t len = str.size();
-        size_t ec = len / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] |= 0x2020'2020'2020'2020;
-        }
-        uint8_t *p1 = (uint8_t *)(p8 + ec);
-        len %= 8;
-        for (size_t i = 0; i < len; ++i) {
-            p1[i] |= 0x20;
+        for (char& c : str) {
+            if ('A' <= c && c <= 'Z') {
+                c = static_cast<char>(c | 0x20);
+            }
         }
     }
 
@@ -185,17 +179,11 @@ struct StringUtil final {
      * @param str [in, out] 待处理字符串
      */
     static void toUpper(std::string& str) {
-        if (str.empty())
-            return;
-        size_t len = str.size() + 1;
-        size_t alignlen = len + 8 - (len % 8);
-        str.resize(alignlen);
-        size_t ec = alignlen / 8;
-        uint64_t *p8 = (uint64_t *)str.data();
-        for (size_t i = 0; i < ec; ++i) {
-            p8[i] &= 0xDFDF'DFDF'DFDF'DFDF;
+        for (char& c : str) {
+            if ('a' <= c && c <= 'z') {
+                c = static_cast<char>(c & 0xDF);
+            }
         }
-        str.resize(len - 1);
     }
 
     /**
-- 
2.43.0


From ab196d693b4621570b2a33f3f3a42eb14dc704d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 05/56] fix: rfindAndTrim kept part of a delimiter longer than
 one character

---
 include/HXLibs/utils/StringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/utils/StringUtils.hpp b/include/HXLibs/utils/StringUtils.hpp
index d650a95..bdd9af3 100644
--- a/include/HXLibs/utils/StringUtils.hpp
+++ b/include/HXLibs/utils/StringUtils.hpp
@@ -195,7 +195,7 @@ struct StringUtil final {
     static std::string rfindAndTrim(std::string_view str, std::string_view delim) {
         std::size_t pos = str.rfind(delim);
         if (pos != std::string::npos) {
-            return std::string {str.substr(pos + 1)};
+            return std::string {str.substr(pos + delim.size())};
         }
         return std::string {str}; // 如果未找到分隔符, 返回原字符串
     }
-- 
2.43.0


From 58081859a3bdf82da90e4ac8232c0b7be2a4c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 06/56] fix: CHashMap::at indexed outside the map for keys that
 are not in it

---
 include/HXLibs/container/CHashMap.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/container/CHashMap.hpp b/include/HXLibs/container/CHashMap.hpp
index c22e386..9f0f69a 100644
--- a/include/HXLibs/container/CHashMap.hpp
+++ b/include/HXLibs/container/CHashMap.hpp
@@ -87,18 +87,16 @@ public:
     // 查找与访问
     template <typename K>
     constexpr mapped_type const& at(K const& key) const {
-        auto const& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
 
     template <typename K>
     constexpr mapped_type& at(K const& key) {
-        auto& kv = lookup(key);
-        if (_keyEqual(meta::getKey(kv), key)) [[likely]] {
-            return kv.second;
+        if (auto it = find(key); it != end()) [[likely]] {
+            return it->second;
         }
         throw std::out_of_range("unknown key");
     }
@@ -132,16 +130,6 @@ public:
     static constexpr bool empty() noexcept { return !N; }
     static constexpr size_type size() noexcept { return N; }
     static constexpr size_type max_size() noexcept { return N; }
-private:
-    template <typename K>
-    constexpr value_type const& lookup(K const& key) const noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
-
-    template <typename K>
-    constexpr value_type& lookup(K const& key) noexcept {
-        return _data[_pmhTable.lookup(key, _hash)];
-    }
 };
 
 /**
-- 
2.43.0


From e64d51df49e7b58c30b44e915ea342718e11c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 07/56] fix: Uninitialized leaked the moved-out object after
 move() and the old object when set() replaced it

---
 include/HXLibs/container/Uninitialized.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/container/Uninitialized.hpp b/include/HXLibs/container/Uninitialized.hpp
index a571a6d..b820bab 100644
--- a/include/HXLibs/container/Uninitialized.hpp
+++ b/include/HXLibs/container/Uninitialized.hpp
@@ -34,7 +34,7 @@ struct Uninitialized {
     Uninitialized& operator=(Uninitialized const&) = delete;
     
     Uninitialized(Uninitialized&& that) noexcept 
-        : _available(that._available)
+        : _available{false}
     {
         if (that._available) {
             set(that.move());
@@ -57,8 +57,9 @@ struct Uninitialized {
     }
 
     T move() noexcept {
-        _available = false;
-        return std::move(_data);
+        T res(std::move(_data));
+        del();
+        return res;
     }
 
     T& get() noexcept {
@@ -71,6 +72,7 @@ struct Uninitialized {
 
     template <typename... Ts>
     void set(Ts&&... args) {
+        del();
         new (std::addressof(_data)) T(std::forward<Ts>(args)...);
         _available = true;
     }
-- 
2.43.0


From 24d2aa9f7acabf06e7c060c2c0f205a9d2a2f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 08/56] fix: UninitializedNonVoidVariant::emplace claimed to
 hold an object whose constructor threw and later destroyed it

---
 include/HXLibs/container/UninitializedNonVoidVariant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/UninitializedNonVoidVariant.hpp b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
index 6e7233a..5f10ff4 100644
--- a/include/HXLibs/container/UninitializedNonVoidVariant.hpp
+++ b/include/HXLibs/container/UninitializedNonVoidVariant.hpp
@@ -333,8 +333,8 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr NonVT& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<NonVT, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) NonVT(std::forward<Args>(args)...);
+        _idx = Idx; // 构造成功后才持有, 构造抛异常时保持为空
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
@@ -343,8 +343,8 @@ struct UninitializedNonVoidVariant {
             requires (Idx < N)
     constexpr T& emplace(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         del();
-        _idx = Idx;
         new (std::addressof(get<Idx, exception::ExceptionMode::Nothrow>())) T(std::forward<Args>(args)...);
+        _idx = Idx; // 构造成功后才持有, 构造抛异常时保持为空
         return get<Idx, exception::ExceptionMode::Nothrow>();
     }
 
-- 
2.43.0


From 97d3064f9a4e422653d6da88e38d619321322ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 09/56] fix: JSON reader read past the end of a text that was
 cut short, accepted unterminated strings/arrays/objects and ignored text that
 is not a boolean

---
 .../reflection/deserialization/Numer.hpp      |  5 ++
 include/HXLibs/reflection/json/JsonRead.hpp   | 48 ++++++++++++-------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/reflection/deserialization/Numer.hpp b/include/HXLibs/reflection/deserialization/Numer.hpp
index 8eb3cc0..79863cc 100644
--- a/include/HXLibs/reflection/deserialization/Numer.hpp
+++ b/include/HXLibs/reflection/deserialization/Numer.hpp
@@ -36,6 +36,9 @@ struct Numer {
         requires(std::is_same_v<bool, T>)
     static void fromNumer(T& t, It&& it, It&& end) {
         // 解析布尔
+        if (it == end) [[unlikely]] {
+            throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
+        }
         if (*it == '0' || *it == '1') {
             t = *it++ - '0';
         } else {
@@ -66,7 +69,9 @@ struct Numer {
             ) {
                 t = false;
                 it += 5;
+                return;
             }
+            throw std::runtime_error{"Characters are not as expected: not a boolean"};
         }
     }
 
diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 36cfaeb..bf6fb11 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -158,6 +158,20 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
     ++it; // 下一个字符
 }
 
+/**
+ * @brief 跳过空白字符, 并且要求之后还有字符, 否则抛出异常
+ * @tparam It 
+ * @param it 
+ * @param end 
+ */
+template <typename It>
+void skipToToken(It&& it, It&& end) {
+    skipWhiteSpace(it, end);
+    if (it == end) [[unlikely]] {
+        throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
+    }
+}
+
 /**
  * @brief 验证当前 it 开始 是否为 Cs... 字符, 如果不是则抛出异常
  * @tparam Cs 
@@ -247,7 +261,7 @@ struct FromJson {
               || std::is_integral_v<T>
               || std::is_floating_point_v<T>)
     static void fromJson(T& t, It&& it, It&& end) {
-        skipWhiteSpace(it, end);
+        skipToToken(it, end);
         Numer::fromNumer(t, it, end);
     }
 
@@ -298,7 +312,7 @@ struct FromJson {
         while (it != end) {
             if (*it == '"') [[unlikely]] {
                 ++it;
-                break;
+                return;
             }
             if (*it != '\\') {
                 t += *it++; // 下一个字符
@@ -306,6 +320,8 @@ struct FromJson {
                 handleEscapeChar(t, it, end); // 内部会处理好 it
             }
         }
+        // 没有找到右 "
+        throw std::runtime_error{"The string is not terminated"};
     }
 
     template <meta::SingleElementContainer T, typename It>
@@ -315,7 +331,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         verify<'['>(it, end);
 
-        skipWhiteSpace(it, end);
+        skipToToken(it, end);
         if (*it == ']') [[unlikely]] {
             ++it;
             return;
@@ -324,10 +340,10 @@ struct FromJson {
         if constexpr (requires (T& t) {
             t.emplace_back();
         }) {
-            while (it != end) {
+            while (true) {
                 // 把内容移交
                 fromJson(t.emplace_back(), it, end);
-                skipWhiteSpace(it, end);
+                skipToToken(it, end);
                 if (*it == ']') {
                     ++it;
                     break;
@@ -347,21 +363,21 @@ struct FromJson {
         skipWhiteSpace(it, end);
         verify<'['>(it, end);
 
-        skipWhiteSpace(it, end);
+        skipToToken(it, end);
         if (*it == ']') [[unlikely]] {
             ++it;
             return;
         }
         // 解析数组 []
         std::size_t idx = 0;
-        while (it != end) {
+        while (true) {
             if (idx >= t.size()) [[unlikely]] {
                 // 数组没有足够的空间存放数据
                 throw std::runtime_error{"The array doesn't have enough space for data"};
             }
             // 把内容移交
             fromJson(t[idx++], it, end);
-            skipWhiteSpace(it, end);
+            skipToToken(it, end);
             if (*it == ']') {
                 ++it;
                 break;
@@ -376,7 +392,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         verify<'['>(it, end);
 
-        skipWhiteSpace(it, end);
+        skipToToken(it, end);
         if (*it == ']') [[unlikely]] {
             ++it;
             return;
@@ -390,7 +406,7 @@ struct FromJson {
                 }
                 // 把内容移交
                 fromJson(std::get<I>(t), it, end);
-                skipWhiteSpace(it, end);
+                skipToToken(it, end);
                 if (*it == ']') {
                     ++it;
                     return;
@@ -408,18 +424,18 @@ struct FromJson {
         // 解析字典 {}
         verify<'{'>(it, end);
 
-        skipWhiteSpace(it, end);
+        skipToToken(it, end);
         if (*it == '}') [[unlikely]] {
             ++it;
             return;
         }
-        while (it != end) {
+        while (true) {
             auto& val = insertOrAssign(t, it, end);
             skipWhiteSpace(it, end);
             verify<':'>(it, end);
             fromJson(val, it, end);
 
-            skipWhiteSpace(it, end);
+            skipToToken(it, end);
             if (*it == '}') {
                 ++it;
                 break;
@@ -438,7 +454,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         verify<'{'>(it, end);
     
-        skipWhiteSpace(it, end);
+        skipToToken(it, end);
         // 不太可能是空的
         if (*it == '}') [[unlikely]] {
             ++it;
@@ -449,7 +465,7 @@ struct FromJson {
         if constexpr (N > 0) {
             static const auto nameHash = reflection::makeNameToIdxVariantHashMap<T>();
             // 需要 name -> idx 映射
-            while (it != end) {
+            while (true) {
                 auto key = findKey(it, end);
                 // 找 ':'
                 skipWhiteSpace(it, end);
@@ -480,7 +496,7 @@ struct FromJson {
                 }, nameHash.at(key));
 
                 // 找 ',' 或者 '}'
-                skipWhiteSpace(it, end);
+                skipToToken(it, end);
                 if (*it == '}') {
                     ++it;
                     break;
-- 
2.43.0


From ddb5e5759da97153a8c5fce30d9cd7f2a48600e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 10/56] fix: JSON reader accepted more elements than a tuple
 has and misread tuples with fewer

---
 include/HXLibs/reflection/json/JsonRead.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index bf6fb11..164a745 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -399,9 +399,10 @@ struct FromJson {
         }
         // 解析数组 []
         constexpr auto N = std::tuple_size_v<T>;
+        bool closed = false;
         [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             ([&]() {
-                if (it == end) {
+                if (closed) {
                     return;
                 }
                 // 把内容移交
@@ -409,6 +410,7 @@ struct FromJson {
                 skipToToken(it, end);
                 if (*it == ']') {
                     ++it;
+                    closed = true;
                     return;
                 }
                 if constexpr (I != N -1) {
@@ -416,6 +418,10 @@ struct FromJson {
                 }
             }(), ...);
         }(std::make_index_sequence<N>{});
+        if (!closed) [[unlikely]] {
+            // 元素个数超过了元组的大小
+            throw std::runtime_error{"The tuple doesn't have enough space for data"};
+        }
     }
 
     template <meta::KeyValueContainer T, typename It>
-- 
2.43.0


From b990b148c7d4f559da454607106c80ee591b6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 11/56] fix: JSON reader turned each half of an escaped
 surrogate pair into a separate invalid UTF-8 sequence

---
 include/HXLibs/reflection/json/JsonRead.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 164a745..0f7a827 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -150,6 +150,20 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
                 throw std::runtime_error(R"(Expected 4 hexadecimal digits)");
             }
             auto code_point = cv::parseUnicodeHex4(it);
+            if (code_point >= 0xD800 && code_point <= 0xDFFF) {
+                // UTF-16 代理对: 必须是 高代理 + 低代理
+                if (code_point >= 0xDC00 || std::distance(it, end) <= 6
+                 || *it != '\\' || *(it + 1) != 'u'
+                ) [[unlikely]] {
+                    throw std::runtime_error{"Invalid Unicode surrogate pair"};
+                }
+                it += 2;
+                auto trail = cv::parseUnicodeHex4(it);
+                if (trail < 0xDC00 || trail > 0xDFFF) [[unlikely]] {
+                    throw std::runtime_error{"Invalid Unicode surrogate pair"};
+                }
+                code_point = 0x10000 + ((code_point - 0xD800) << 10) + (trail - 0xDC00);
+            }
             cv::encodeUtf8(str, code_point); // 内部会移动 it
             return;
         }
-- 
2.43.0


From 4cda36f7d9860b09f6d17f9d6d5bdfddf8ad9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 12/56] fix: JSON reader did not unescape object keys and ended
 them at an escaped quote

---
 include/HXLibs/reflection/json/JsonRead.hpp | 41 +++++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 0f7a827..e94af13 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -243,26 +243,50 @@ void findNextIn(It&& it, It&& end) {
     [[unlikely]] throw std::runtime_error{"Characters are not as expected"};
 }
 
+/**
+ * @brief 解析 key, 如果 key 含有转义字符, 那么反转义后的内容存放于 buf
+ * @tparam It 
+ * @param it 
+ * @param end 
+ * @param buf 
+ * @return std::string_view 视图, 指向 it 或者 buf
+ */
 template <typename It>
-std::string_view findKey(It&& it, It&& end) {
+std::string_view findKey(It&& it, It&& end, std::string& buf) {
     skipWhiteSpace(it, end);
     verify<'"'>(it, end);
     // 找左 "
     auto left = it;
-    findNextIn<'"'>(it, end); // 假定 key 没有 '\', 有也会在 at(key) 时候报错
-    return {left, it++};
+    findNextIn<'"', '\\'>(it, end);
+    if (*it == '"') [[likely]] {
+        return {left, it++};
+    }
+    buf.assign(left, it);
+    while (it != end) {
+        if (*it == '"') {
+            ++it;
+            return buf;
+        }
+        if (*it != '\\') {
+            buf += *it++;
+        } else {
+            handleEscapeChar(buf, it, end);
+        }
+    }
+    throw std::runtime_error{"The key is not terminated"};
 }
 
 template <meta::KeyValueContainer T, typename It>
 auto& insertOrAssign(T& t, It&& it, It&& end) {
+    std::string buf;
     if constexpr (requires (T& t) {
-        t[findKey(it, end)];
+        t[findKey(it, end, buf)];
     }) {
-        return t[findKey(it, end)];
+        return t[findKey(it, end, buf)];
     } else if constexpr (requires (T& t) {
-        t[typename T::key_type {findKey(it, end)}];
+        t[typename T::key_type {findKey(it, end, buf)}];
     }) {
-        return t[typename T::key_type {findKey(it, end)}];
+        return t[typename T::key_type {findKey(it, end, buf)}];
     } else {
         // 不支持由 std::string_view 构造 key
         static_assert(!sizeof(T), "Constructing keys from std::string_view is not supported");
@@ -486,7 +510,8 @@ struct FromJson {
             static const auto nameHash = reflection::makeNameToIdxVariantHashMap<T>();
             // 需要 name -> idx 映射
             while (true) {
-                auto key = findKey(it, end);
+                std::string buf;
+                auto key = findKey(it, end, buf);
                 // 找 ':'
                 skipWhiteSpace(it, end);
                 verify<':'>(it, end);
-- 
2.43.0


From 0c2f513fc3d0f4a8c64f9acc6f45d01454709abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 13/56] fix: JSON reader kept or appended to a field's default
 value (null into a non-empty optional or pointer, strings, sequences and maps
 with defaults)

---
 include/HXLibs/reflection/json/JsonRead.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index e94af13..d23d329 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -328,6 +328,7 @@ struct FromJson {
                 && (*(it + 3) & Mask) == 'L'
         ) {
             it += 4;
+            t = T{};
             return;
         }
         if constexpr (meta::IsOptionalVal<T>) {
@@ -347,6 +348,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         // 解析字符串
         verify<'"'>(it, end);
+        t = T{}; // 丢弃旧值 (如: 成员的默认值)
         while (it != end) {
             if (*it == '"') [[unlikely]] {
                 ++it;
@@ -368,6 +370,7 @@ struct FromJson {
     static void fromJson(T& t, It&& it, It&& end) {
         skipWhiteSpace(it, end);
         verify<'['>(it, end);
+        t.clear(); // 丢弃旧值 (如: 成员的默认值)
 
         skipToToken(it, end);
         if (*it == ']') [[unlikely]] {
@@ -467,6 +470,7 @@ struct FromJson {
         skipWhiteSpace(it, end);
         // 解析字典 {}
         verify<'{'>(it, end);
+        t.clear(); // 丢弃旧值 (如: 成员的默认值)
 
         skipToToken(it, end);
         if (*it == '}') [[unlikely]] {
-- 
2.43.0


From 3569cbaa6f375e2cf0ee68d5b7e4351ba9337fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 14/56] fix: JSON writer read past the end of a string ending
 in a cut-short UTF-8 sequence

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index 29ef305..9a3e478 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -65,10 +65,14 @@ inline unsigned char GetRange(unsigned char c) {
 
 // https://github.com/Tencent/rapidjson/blob/master/include/rapidjson/encodings.h
 template <typename Ch = char, typename It>
-inline bool decodeUtf8(It&& it, unsigned& codepoint) {
+inline bool decodeUtf8(It&& it, It&& end, unsigned& codepoint) {
     auto c = *(it++);
     bool result = true;
     auto copy = [&]() constexpr {
+        if (it == end) [[unlikely]] {
+            result = false; // 被截断的 UTF-8
+            return;
+        }
         c = *(it++);
         codepoint = (codepoint << 6) | (static_cast<unsigned char>(c) & 0x3Fu);
     };
@@ -127,13 +131,13 @@ inline bool decodeUtf8(It&& it, unsigned& codepoint) {
 }
 
 template <typename Stream, typename Ch>
-inline void writeUnicodeToString(Ch& it, Stream& ss) {
+inline void writeUnicodeToString(Ch& it, Ch& end, Stream& ss) {
     static const char hexDigits[16] = {
         '0', '1', '2', '3', '4', '5', '6', '7',
         '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'
     };
     unsigned codepoint = 0;
-    if (!decodeUtf8(it, codepoint)) [[unlikely]] {
+    if (!decodeUtf8(it, end, codepoint)) [[unlikely]] {
         throw std::runtime_error("illegal unicode character");
     }
     ss.push_back('\\');
@@ -196,7 +200,7 @@ inline void writeStringWithEscape(
     std::advance(end, length);
     while (it < end) {
         if (static_cast<unsigned>(*it) >= 0x80) [[unlikely]] {
-            writeUnicodeToString(it, s);
+            writeUnicodeToString(it, end, s);
         } else if (escape[static_cast<unsigned char>(*it)]) [[unlikely]] {
             s.push_back('\\');
             s.push_back(escape[static_cast<unsigned char>(*it)]);
-- 
2.43.0


From 5da1b69b47f842b706b2056e1a43c2948d7b0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 15/56] fix: JSON writer wrote a char as a bare character

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index 9a3e478..7924ca3 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -269,6 +269,9 @@ struct ToJson {
     static void toJson(T const& t, S& s) {
         if constexpr (NF != static_cast<size_t>(-1)) {
             s.append(std::format("{:." + std::format("{}", NF) + "f}", t));
+        } else if constexpr (std::is_same_v<T, char>) {
+            // std::format 会把 char 当作字符, 而不是数字
+            s.append(std::format("{}", static_cast<int>(t)));
         } else {
             s.append(std::format("{}", t));
         }
-- 
2.43.0


From cf4dfc791ae106c2d951091fecc2643358cd8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 16/56] fix: JSON writer wrote an empty tuple as ]

---
 include/HXLibs/reflection/json/JsonWrite.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonWrite.hpp b/include/HXLibs/reflection/json/JsonWrite.hpp
index 7924ca3..bd13086 100644
--- a/include/HXLibs/reflection/json/JsonWrite.hpp
+++ b/include/HXLibs/reflection/json/JsonWrite.hpp
@@ -344,6 +344,10 @@ struct ToJson {
     static void toJson(T const& tp, S& s) {
         s.push_back('[');
         constexpr auto N = std::tuple_size_v<T>;
+        if constexpr (N == 0) {
+            s.push_back(']');
+            return;
+        }
         [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             ([&]() constexpr {
                 toJson(std::get<I>(tp), s);
-- 
2.43.0


From a3f00a3bbeb53876c171a88ce1e7a4324352077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 17/56] fix: cached insert/update/delete statements were not
 reset after running (nor any statement after a failure) so that the next use
 failed to bind

---
 include/HXLibs/db/sql/Dml.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 1913db3..5c64295 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -44,6 +44,27 @@ constexpr auto removeNumInValueWarp(std::index_sequence<I...>, ValWrap) noexcept
     }())...>>{};
 }
 
+// 保证语句在离开 exec 时 (无论成功或者抛异常) 被重置, 以便缓存的预编译语句可再次使用
+template <typename DbView>
+struct StmtResetGuard {
+    DbView& _db;
+
+    explicit StmtResetGuard(DbView& db) noexcept
+        : _db{db}
+    {}
+
+    StmtResetGuard(StmtResetGuard const&) = delete;
+    StmtResetGuard& operator=(StmtResetGuard const&) = delete;
+
+    ~StmtResetGuard() noexcept {
+        try {
+            _db.reset();
+        } catch (...) {
+            // reset 会返回上一次执行的错误, 该错误已由 exec 报告
+        }
+    }
+};
+
 } // namespace internal
 
 template <typename Db>
@@ -468,6 +489,7 @@ struct SelectSqlBuild {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> resetGuard{this->_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!this->_dbRef.bind(Idx + 1, std::forward<Ts>(std::get<Idx>(ts)))) [[unlikely]] {
@@ -477,7 +499,6 @@ struct SelectSqlBuild {
         }(std::make_index_sequence<sizeof...(Ts)>{});
         std::vector<ColumnResType> res{};
         this->_dbRef.selectForEach(res);
-        this->_dbRef.reset();
         return res;
     }
 
@@ -922,6 +943,7 @@ struct InsertSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> resetGuard{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -1039,6 +1061,7 @@ struct MutationSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> resetGuard{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -1109,6 +1132,7 @@ struct MutationReturningSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> resetGuard{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
-- 
2.43.0


From a0f92912c5bd6a6a3a91bf8105711c3ee9eb6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 18/56] fix: failing select/returning threw a std::string that
 is not a std::exception

---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 045035c..d81239b 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -116,7 +116,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
@@ -128,7 +128,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
-- 
2.43.0


From b1f1b7bae658999fd1aec770f145e14c1fa2d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 19/56] fix: select appended to the text of an earlier failed
 prepare of the same template

---
 include/HXLibs/db/sql/Dml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 5c64295..77554df 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -909,7 +909,7 @@ struct SelectBuild : public SelectSqlBuild<Db> {
         requires (sizeof...(Cs) > 0)
     constexpr FromBuild<Db> select() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
-            this->_dbRef.sql() += "SELECT ";
+            this->_dbRef.sql() = "SELECT ";
             ([this] <auto C> (meta::ValueWrap<C>) {
                 using U = decltype(C);
                 if constexpr (IsColTypeVal<U>) {
-- 
2.43.0


From f8dc293ebbb9acb1be2a00f9db86a17b63f7f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 20/56] fix: reopening or closing a database kept cached
 statements of the old one and closed the old handle twice

---
 include/HXLibs/db/sqlite3/SqliteDB.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteDB.hpp b/include/HXLibs/db/sqlite3/SqliteDB.hpp
index 1401a16..7742382 100644
--- a/include/HXLibs/db/sqlite3/SqliteDB.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteDB.hpp
@@ -59,6 +59,8 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         if (!_db) {
             return;
         }
+        // 需要清空缓存的预编译语句, 否则无法释放 sqlite3_close, 且重新 open 后会使用旧库的语句
+        Base::clearCache();
 #ifndef NDEBUG
         sqlite3_stmt* stmt = nullptr;
         while ((stmt = sqlite3_next_stmt(_db, stmt))) {
@@ -66,11 +68,10 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         }
 #endif
         sqlite3_close(_db);
+        _db = nullptr;
     }
 
     ~SqliteDB() noexcept {
-        // 需要清空缓存, 否则无法释放 sqlite3_close
-        Base::clearCache();
         close();
     }
 
-- 
2.43.0


From 2245b7a34428e674679448bf23c475b71ad971ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 21/56] fix: query parameters bound before a skipped builder
 stage (e.g. where(x).orderBy()) were dropped

---
 include/HXLibs/db/sql/Dml.hpp | 101 ++++++++++++----------------------
 1 file changed, 34 insertions(+), 67 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 77554df..2942cda 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -518,12 +518,12 @@ struct SelectSqlBuild {
 
 #define HX_DB_DML_SELECT_EXEC_IMPL                                             \
     std::vector<typename SelectSqlBuild<Db>::ColumnResType> exec() && {        \
-        return SelectSqlBuild<Db>::exec(_tp);                                  \
+        return SelectSqlBuild<Db>::exec(this->_tp);                            \
     }                                                                          \
                                                                                \
     container::Try<std::vector<typename SelectSqlBuild<Db>::ColumnResType>>    \
     execNoThrow() && noexcept {                                                \
-        return SelectSqlBuild<Db>::execNoThrow(_tp);                           \
+        return SelectSqlBuild<Db>::execNoThrow(this->_tp);                        \
     }
 
 template <typename Db, typename... Ts>
@@ -565,7 +565,7 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -579,7 +579,7 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         internal::addLimitVal<Offset>(this->_dbRef.sql());
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -587,17 +587,11 @@ struct LimitBuild : public SelectSqlBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct OrderByBuild : public LimitBuild<Db> {
-    using Base = LimitBuild<Db>;
+struct OrderByBuild : public LimitBuild<Db, Ts...> {
+    using Base = LimitBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr OrderByBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <OrderType... Orders>
         requires (sizeof...(Orders) > 0)
     LimitBuild<Db, Ts&&...> orderBy() && {
@@ -612,7 +606,7 @@ struct OrderByBuild : public LimitBuild<Db> {
             this->_dbRef.sql().back() = ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return LimitBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return LimitBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -620,17 +614,11 @@ struct OrderByBuild : public LimitBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct HavingBuild : public OrderByBuild<Db> {
-    using Base = OrderByBuild<Db>;
+struct HavingBuild : public OrderByBuild<Db, Ts...> {
+    using Base = OrderByBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr HavingBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <Expression Expr, typename... Us>
     OrderByBuild<Db, Ts&&..., Us&&...> having(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
@@ -652,7 +640,7 @@ struct HavingBuild : public OrderByBuild<Db> {
             ) constexpr {
                 return OrderByBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::get<I>(std::move(this->_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -665,7 +653,7 @@ struct HavingBuild : public OrderByBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return OrderByBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
@@ -674,17 +662,11 @@ struct HavingBuild : public OrderByBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct GroupByBuild : public HavingBuild<Db> {
-    using Base = HavingBuild<Db>;
+struct GroupByBuild : public HavingBuild<Db, Ts...> {
+    using Base = HavingBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr GroupByBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <auto... Ptrs>
         requires (sizeof...(Ptrs) > 0 && (meta::IsMemberPtrVal<decltype(Ptrs)> && ...))
     HavingBuild<Db, Ts&&...> groupBy() && {
@@ -698,7 +680,7 @@ struct GroupByBuild : public HavingBuild<Db> {
         ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
         this->_dbRef.sql().back() = ' ';
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -723,7 +705,7 @@ struct GroupByBuild : public HavingBuild<Db> {
             ) constexpr {
                 return HavingBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::get<I>(std::move(this->_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -736,7 +718,7 @@ struct GroupByBuild : public HavingBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return HavingBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
@@ -745,17 +727,11 @@ struct GroupByBuild : public HavingBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct WhereBuild : public GroupByBuild<Db> {
-    using Base = GroupByBuild<Db>;
+struct WhereBuild : public GroupByBuild<Db, Ts...> {
+    using Base = GroupByBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr WhereBuild(Db db, Ts&&... ts)
-        : Base{db}
-        , _tp{std::forward<Ts>(ts)...}
-    {}
-
     template <Expression Expr, typename... Us>
     auto where(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
@@ -777,7 +753,7 @@ struct WhereBuild : public GroupByBuild<Db> {
             ) constexpr {
                 return GroupByBuild<Db, Ts&&..., decltype(internal::atParamBindName(
                     meta::getDefault<PIdx>(ps), tp))...>{
-                        this->_dbRef, std::get<I>(_tp)...,
+                        this->_dbRef, std::get<I>(std::move(this->_tp))...,
                         internal::atParamBindName(meta::getDefault<PIdx>(ps), tp)...};
             }(std::make_index_sequence<N>{}, std::make_index_sequence<ParamCnt>{});
         } else {
@@ -790,7 +766,7 @@ struct WhereBuild : public GroupByBuild<Db> {
             } (std::make_index_sequence<ParamCnt>{});
             return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
                 return GroupByBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                    std::get<I>(_tp)..., std::forward<Us>(us)...};
+                    std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
             }(std::make_index_sequence<N>{});
         }
     }
@@ -802,10 +778,9 @@ template <typename Db, typename... Ts>
 struct JoinOrWhereBuild;
 
 template <typename Db, typename... Ts>
-struct OnBuild : public JoinOrWhereBuild<Db> {
-    using Base = JoinOrWhereBuild<Db>;
+struct OnBuild : public JoinOrWhereBuild<Db, Ts...> {
+    using Base = JoinOrWhereBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
     template <Expression Expr, typename... Us>
@@ -829,7 +804,7 @@ struct OnBuild : public JoinOrWhereBuild<Db> {
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return JoinOrWhereBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -837,10 +812,9 @@ struct OnBuild : public JoinOrWhereBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct JoinOrWhereBuild : public WhereBuild<Db> {
-    using Base = WhereBuild<Db>;
+struct JoinOrWhereBuild : public WhereBuild<Db, Ts...> {
+    using Base = WhereBuild<Db, Ts...>;
     using Base::Base;
-    std::tuple<Ts&&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
     template <typename Table>
@@ -851,31 +825,31 @@ struct JoinOrWhereBuild : public WhereBuild<Db> {
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
     template <typename Table>
-    constexpr OnBuild<Db> leftJoin() && {
+    constexpr OnBuild<Db, Ts&&...> leftJoin() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += "LEFT JOIN ";
             this->_dbRef.sql() += getTableName<Table>();
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
     template <typename Table>
-    constexpr OnBuild<Db> rightJoin() && {
+    constexpr OnBuild<Db, Ts&&...> rightJoin() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.sql() += "RIGHT JOIN ";
             this->_dbRef.sql() += getTableName<Table>();
             this->_dbRef.sql() += ' ';
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
-            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(_tp)...};
+            return OnBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(this->_tp))...};
         }(std::make_index_sequence<N>{});
     }
 
@@ -1261,17 +1235,12 @@ struct ReturningMutationBuild : public MutationSqlBuild<Db> {
 };
 
 template <typename Db, typename... Ts>
-struct WhereMutationBuild : public ReturningMutationBuild<Db> {
-    using Base = ReturningMutationBuild<Db>;
+struct WhereMutationBuild : public ReturningMutationBuild<Db, Ts...> {
+    using Base = ReturningMutationBuild<Db, Ts...>;
+    using Base::Base;
 
-    std::tuple<Ts const&...> _tp;
     inline static constexpr auto N = sizeof...(Ts);
 
-    constexpr WhereMutationBuild(Db db, Ts const&... ts)
-        : Base{db}
-        , _tp{ts...}
-    {}
-
     template <Expression Expr, typename... Us>
     ReturningMutationBuild<Db, Ts&&..., Us&&...> where(Us&&... us) && {
         using ParamWrap = internal::GetExprParamsType<Expr>;
@@ -1293,11 +1262,9 @@ struct WhereMutationBuild : public ReturningMutationBuild<Db> {
         }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return ReturningMutationBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
-                std::get<I>(_tp)..., std::forward<Us>(us)...};
+                std::get<I>(this->_tp)..., std::forward<Us>(us)...};
         }(std::make_index_sequence<N>{});
     }
-
-    HX_DB_MUTATION_EXEC_IMPL
 };
 
 #undef HX_DB_MUTATION_EXEC_IMPL
-- 
2.43.0


From ab954cd05b44f72f688f2a3981ea7fef517772ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 22/56] fix: string literals containing a quote ended early in
 the generated SQL

---
 include/HXLibs/db/sql/Dml.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 2942cda..345ea3e 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -351,7 +351,13 @@ constexpr void expandExpr(std::string& res) {
         res += makeColName<Expr>();
     } else if constexpr (meta::IsFixedStringVal<T>) {
         res += '\'';
-        res += Expr;
+        for (char c : std::string_view{Expr}) {
+            // SQL 字符串字面量中的单引号需要写两次
+            if (c == '\'') {
+                res += '\'';
+            }
+            res += c;
+        }
         res += '\'';
     } else if constexpr (IsSqlNumberTypeVal<T>) {
         res += log::toString(Expr);
-- 
2.43.0


From ff6acdd4946d671ee637a61cbc2d6e49067e3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 23/56] fix: generated SQL lost the grouping of nested
 expressions such as (a || b) && c or (x + 1) * 2

---
 include/HXLibs/db/sql/Dml.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 345ea3e..0c41cb4 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -376,24 +376,28 @@ constexpr void expandExpr(std::string& res) {
     }
 }
 
+// 展开操作数, 子表达式需要使用括号包裹, 以保持 C++ 表达式的结合顺序
+template <auto Expr>
+constexpr void expandOperand(std::string& res) {
+    if constexpr (IsExpressionVal<decltype(Expr)>) {
+        res += '(';
+        expandExpr<Expr>(res);
+        res += ')';
+    } else {
+        expandExpr<Expr>(res);
+    }
+}
+
 template <Expression Expr>
 constexpr std::string exprToString() {
     std::string res{};
     using T = decltype(Expr);
     if constexpr (IsCalculateExprTypeVal<T> || Is3OpExprVal<T>) {
-        using Expr1 = decltype(Expr._expr1);
-        if constexpr (IsExpressionVal<Expr1>) {
-            res += exprToString<Expr._expr1>();
-        } else if constexpr (IsColTypeVal<Expr1>) {
-            res += makeColName<Expr._expr1>();
-        } else {
-            // 非法表达式
-            static_assert(!sizeof(Expr), "illegal expression");
-        }
+        expandOperand<Expr._expr1>(res);
         res += ' ';
         res += Expr._op.Sql;
         res += ' ';
-        expandExpr<Expr._expr2>(res);
+        expandOperand<Expr._expr2>(res);
     } else if constexpr (IsTailOpExprVal<T>) {
         res += makeColName<Expr._expr>();
         res += ' ';
-- 
2.43.0


From d66ab89aa58ce3a72c0d0073b10b4183f9924722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 24/56] fix: expressions with the literal on the left (10 -
 column, literal < column, ...) were generated with the operands swapped

---
 include/HXLibs/db/sql/Dml.hpp        | 12 ++++--------
 include/HXLibs/db/sql/Expression.hpp | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 0c41cb4..46230cb 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -439,14 +439,10 @@ template <Expression Expr>
 constexpr auto GetExprParamsTypeFunc() noexcept {
     using T = decltype(Expr);
     if constexpr (IsCalculateExprTypeVal<T> || Is3OpExprVal<T>) {
-        if constexpr (IsExpressionVal<decltype(Expr._expr1)>) {
-            return meta::FlattenWrapType<
-                decltype(GetExprParamsTypeFunc<Expr._expr1>()),
-                decltype(expandGetExprParamsTypeFunc<Expr._expr2>())
-            >{};
-        } else {
-            return expandGetExprParamsTypeFunc<Expr._expr2>();
-        }
+        return meta::FlattenWrapType<
+            decltype(expandGetExprParamsTypeFunc<Expr._expr1>()),
+            decltype(expandGetExprParamsTypeFunc<Expr._expr2>())
+        >{};
     } else {
         return meta::Wrap<>{};
     }
diff --git a/include/HXLibs/db/sql/Expression.hpp b/include/HXLibs/db/sql/Expression.hpp
index d7cb227..2df84d1 100644
--- a/include/HXLibs/db/sql/Expression.hpp
+++ b/include/HXLibs/db/sql/Expression.hpp
@@ -162,8 +162,8 @@ struct Expression<Op, Expr, void> {
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }
 
 HX_DB_3OP_COMP_IMPL(<, op::Lt)
@@ -200,8 +200,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
             && std::same_as<decltype(v),                                       \
                             meta::RemoveOptionalWrapType<typename C::Type>>)   \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }                                                                          \
     template <ColType C, CalculateExprType CET>                                \
     constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
@@ -209,9 +209,9 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
         return {c, OP_NAME, cet};                                              \
     }                                                                          \
     template <CalculateExprType CET, ColType C>                                \
-    constexpr Expression<C, decltype(OP_NAME), CET> operator OP(               \
+    constexpr Expression<CET, decltype(OP_NAME), C> operator OP(               \
         CET cet, C c) noexcept {                                               \
-        return {c, OP_NAME, cet};                                              \
+        return {cet, OP_NAME, c};                                              \
     }                                                                          \
     template <CalculateExprType CET>                                           \
     constexpr auto operator OP(CET cet, auto v) noexcept                       \
@@ -224,8 +224,8 @@ HX_DB_3OP_COMP_IMPL(>=, op::Ge)
     constexpr auto operator OP(auto v, CET cet) noexcept                       \
         requires(IsSqlNumberTypeVal<decltype(v)>)                              \
     {                                                                          \
-        return Expression<CET, decltype(OP_NAME), decltype(v), void>{          \
-            cet, OP_NAME, std::move(v)};                                       \
+        return Expression<decltype(v), decltype(OP_NAME), CET, void>{          \
+            std::move(v), OP_NAME, cet};                                       \
     }
 
 HX_DB_3OP_NUMBER_IMPL(==, op::Eq)
@@ -255,8 +255,8 @@ HX_DB_3OP_NUMBER_IMPL(%, op::Mod)
             meta::StringType<meta::RemoveOptionalWrapType<typename C::Type>>   \
             && meta::IsFixedStringVal<decltype(v)>)                            \
     {                                                                          \
-        return Expression<C, decltype(OP_NAME), decltype(v), void>{            \
-            c, OP_NAME, std::move(v)};                                         \
+        return Expression<decltype(v), decltype(OP_NAME), C, void>{            \
+            std::move(v), OP_NAME, c};                                         \
     }
 
 HX_DB_3OP_STR_IMPL(==, op::Eq)
-- 
2.43.0


From 7f9a17cb08d0ca3f4d22e6e87f7519635f94e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 25/56] fix: in/notIn with a single value generated invalid SQL

---
 include/HXLibs/db/sql/Dml.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 46230cb..f243f41 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -363,15 +363,9 @@ constexpr void expandExpr(std::string& res) {
         res += log::toString(Expr);
     } else if constexpr (meta::IsValueWrapVal<T>) {
         [&] <auto... Vs> (meta::ValueWrap<Vs...>) {
-            if constexpr (sizeof...(Vs) > 1) {
-                res += '(';
-            }
+            res += '(';
             ((expandExpr<Vs>(res), res += ','), ...);
-            if constexpr (sizeof...(Vs) > 1) {
-                res.back() = ')';
-            } else {
-                res.pop_back();
-            }
+            res.back() = ')';
         } (Expr);
     }
 }
-- 
2.43.0


From 7a63d25582eab5891b5c1e3e3f1d84574e2fd4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 26/56] fix: groupBy/limit appended to the cached SQL text on
 every use

---
 include/HXLibs/db/sql/Dml.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index f243f41..ea1e423 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -559,10 +559,12 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> + IsParamVal<decltype(MaxCnt)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
-        this->_dbRef.sql() += ',';
-        internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+            this->_dbRef.sql() += ',';
+            internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
@@ -575,8 +577,10 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(std::move(this->_tp))..., std::forward<Us>(us)...};
@@ -676,9 +680,11 @@ struct GroupByBuild : public HavingBuild<Db, Ts...> {
     template <Col... Cs>
         requires (sizeof...(Cs) > 0)
     HavingBuild<Db, Ts&&...> groupBy() && {
-        this->_dbRef.sql() += "GROUP BY ";
-        ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
-        this->_dbRef.sql().back() = ' ';
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "GROUP BY ";
+            ((this->_dbRef.sql() += internal::makeColName<Cs>(), this->_dbRef.sql() += ','), ...);
+            this->_dbRef.sql().back() = ' ';
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return HavingBuild<Db, Ts&&...>{this->_dbRef, std::get<I>(std::move(this->_tp))...};
         }(std::make_index_sequence<N>{});
-- 
2.43.0


From 18d63b8015583cab838fcd3dd31d1b4b01046a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 27/56] fix: event loop stopped with a timer pending that a
 resumed yielder had set; yields waited for timers that were not due; a
 coroutine that keeps yielding starved timers and I/O

---
 include/HXLibs/coroutine/loop/TimerLoop.hpp | 29 +++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/TimerLoop.hpp b/include/HXLibs/coroutine/loop/TimerLoop.hpp
index 853c058..c017344 100644
--- a/include/HXLibs/coroutine/loop/TimerLoop.hpp
+++ b/include/HXLibs/coroutine/loop/TimerLoop.hpp
@@ -18,9 +18,12 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <chrono>
 #include <map>
 #include <list>
+#include <iterator>
+#include <optional>
 #include <coroutine>
 
 namespace HX::coroutine {
@@ -35,20 +38,30 @@ struct TimerLoop {
     TimerLoop& operator=(TimerLoop&&) = delete;
 
     std::optional<std::chrono::system_clock::duration> run() {
-        while (_timerTree.size()) {
-            auto nowTime = std::chrono::system_clock::now();
+        // 只处理此刻已到期的计时器 与 此刻已在队列中的 yield,
+        // 它们恢复后新增的留待下一轮, 以免 IO 与其他协程被饿死
+        auto const nowTime = std::chrono::system_clock::now();
+        for (auto n = std::distance(_timerTree.begin(), _timerTree.upper_bound(nowTime)); n > 0; --n) {
             auto it = _timerTree.begin();
-            if (it->first <= nowTime) {
-                it->second.resume();
-                _timerTree.erase(it);
-            } else {
-                return it->first - nowTime;
+            if (it == _timerTree.end() || it->first > nowTime) {
+                break;
             }
+            it->second.resume();
+            _timerTree.erase(it);
         }
-        while (_yieldQueue.size()) {
+        for (auto n = _yieldQueue.size(); n && _yieldQueue.size(); --n) {
             _yieldQueue.front().resume();
             _yieldQueue.pop_front();
         }
+        if (_yieldQueue.size()) {
+            return std::chrono::system_clock::duration::zero();
+        }
+        if (_timerTree.size()) {
+            return std::max(
+                _timerTree.begin()->first - std::chrono::system_clock::now(),
+                std::chrono::system_clock::duration::zero()
+            );
+        }
         return {};
     }
 
-- 
2.43.0


From 870774bbfa598dd9bb7556749c50a80af53f40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 28/56] fix: completions were delivered to waiters destroyed
 earlier in the same batch, abandoned operations kept the loop running and
 wrote into freed buffers, a cancelled operation never resumed its waiter, and
 a full submission queue blocked or unlinked a timeout

---
 include/HXLibs/coroutine/loop/EventLoop.hpp |  49 ++++++---
 include/HXLibs/coroutine/task/AioTask.hpp   | 108 +++++++++++++++++++-
 2 files changed, 138 insertions(+), 19 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index b524979..d5a316a 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -109,13 +109,21 @@ struct IoUring {
 
     ~IoUring() noexcept {
         ::io_uring_queue_exit(&_ring);
+        while (_ops) {
+            auto* op = std::exchange(_ops, _ops->next);
+            op->prev = nullptr;
+            op->ring = nullptr;
+            if (!op->task) {
+                delete op;
+            }
+        }
     }
 
     AioTask makeAioTask() {
         // mandatory copy elision 场景
         // 编译器强制使用 RVO (返回值优化)
         // https://en.cppreference.com/w/cpp/language/copy_elision.html
-        return AioTask{getSqe()};
+        return AioTask{getSqe(), &_ring, &_numSqesPending, _ops};
     }
 
     /**
@@ -164,24 +172,31 @@ struct IoUring {
         unsigned head, numGot = 0;
         io_uring_for_each_cqe(&_ring, head, cqe) {
             ++numGot;
-            if (cqe->res == -ECANCELED) { // 操作已取消 (比如超时了)
-                continue;
-            }
-            auto* task = reinterpret_cast<AioTask*>(cqe->user_data);
-            if (!task) [[unlikely]] {
-                continue; // 仅 prepNop
-            }
-            task->_res = cqe->res;
-            tasks.push_back(task->_previous);
+            if (auto* op = reinterpret_cast<AioOp*>(cqe->user_data)) [[likely]] {
+                _done.emplace_back(op, cqe->res);
+            } // 否则仅仅是 prepNop 或者 取消操作
         }
 
         // 手动前进完成队列的头部 (相当于批量io_uring_cqe_seen)
         ::io_uring_cq_advance(&_ring, numGot);
         _numSqesPending -= static_cast<std::size_t>(numGot);
-        for (const auto& it : tasks) {
-            it.resume();
+        for (std::size_t i = 0; i < _done.size(); ++i) {
+            // 注意: 恢复其中一个协程, 可能导致后面的等待者析构
+            auto [op, ret] = _done[i];
+            auto* task = op->task;
+            if (task && ret == -ECANCELED && op->isLink) {
+                // 操作与其链接的超时, 必有一个是被取消的: 只恢复没有被取消的那一个
+                task->_op = nullptr;
+                task = nullptr;
+            }
+            delete op;
+            if (task) {
+                task->_op = nullptr;
+                task->_res = ret;
+                task->_previous.resume();
+            }
         }
-        tasks.clear();
+        _done.clear();
     }
 
 private:
@@ -201,7 +216,10 @@ private:
             // 提交了, 应该有空位, 那可以
             sqe = ::io_uring_get_sqe(&_ring);
 #else
-            ::io_uring_submit_and_wait(&_ring, 1); // 直接挂起等待操作系统完成了再说
+            // 仅提交即可腾出空位; 不能等待完成, 因为可能没有任何操作可以完成
+            if (int res = ::io_uring_submit(&_ring); res < 0 && res != -EINTR) [[unlikely]] {
+                throw std::system_error(-res, std::system_category());
+            }
             sqe = ::io_uring_get_sqe(&_ring);
             if (!sqe) {
                 throw std::runtime_error("Still failed to get sqe after wait");
@@ -214,7 +232,8 @@ private:
 
     ::io_uring _ring;
     std::size_t _numSqesPending; // 未完成的任务数
-    std::vector<std::coroutine_handle<>> tasks; // 协程任务队列
+    AioOp* _ops{};              // 所有未完成的操作
+    std::vector<std::pair<AioOp*, int>> _done;  // 本轮完成的操作及其结果
                                                 // 提取为成员, 避免频繁构造临时变量导致频繁扩容
 };
 
diff --git a/include/HXLibs/coroutine/task/AioTask.hpp b/include/HXLibs/coroutine/task/AioTask.hpp
index 9d9ea2e..d855a08 100644
--- a/include/HXLibs/coroutine/task/AioTask.hpp
+++ b/include/HXLibs/coroutine/task/AioTask.hpp
@@ -34,11 +34,96 @@ struct IoUring;
 
 } // namespace internal
 
+struct AioTask;
+
+namespace internal {
+
+/**
+ * @brief 一个操作的状态, 作为`user_data`; 它比 AioTask 活得久, 直到内核报告该操作完成
+ */
+struct AioOp {
+    AioTask* task;              // 等待者; 为空表示等待者已经析构
+    ::io_uring* ring;           // 为空表示事件循环已经析构
+    std::size_t* pendingCnt;    // 未完成的任务数
+    AioOp** prev;               // 侵入式链表, 记录所有未完成的操作
+    AioOp* next;
+    bool isLink = false;        // 与超时操作链接, 或者其本身就是链接的超时操作
+    bool isTimeout = false;     // 其本身就是链接的超时操作
+
+    AioOp(AioTask* t, ::io_uring* r, std::size_t* cnt, AioOp*& head) noexcept
+        : task{t}, ring{r}, pendingCnt{cnt}, prev{&head}, next{head}
+    {
+        if (next) {
+            next->prev = &next;
+        }
+        head = this;
+    }
+
+    AioOp& operator=(AioOp&&) noexcept = delete;
+
+    ~AioOp() noexcept {
+        if (prev) {
+            *prev = next;
+            if (next) {
+                next->prev = prev;
+            }
+        }
+    }
+
+    /**
+     * @brief 尚未提交给内核的 sqe, 如果已经提交则返回空
+     */
+    ::io_uring_sqe* unsubmitted() const noexcept {
+        for (auto i = ring->sq.sqe_head; i != ring->sq.sqe_tail; ++i) {
+            auto* sqe = &ring->sq.sqes[i & ring->sq.ring_mask];
+            if (sqe->user_data == reinterpret_cast<std::uint64_t>(this)) {
+                return sqe;
+            }
+        }
+        return nullptr;
+    }
+
+    /**
+     * @brief 等待者析构了, 但是操作尚未完成: 需要让内核不再使用等待者提供的缓冲区
+     */
+    void abandon() noexcept {
+        task = nullptr;
+        if (!ring) {
+            delete this;
+            return;
+        }
+        if (auto* sqe = unsubmitted()) {
+            auto flags = sqe->flags;
+            ::io_uring_prep_nop(sqe);
+            ::io_uring_sqe_set_flags(sqe, flags);
+            ::io_uring_sqe_set_data(sqe, this);
+            return;
+        }
+        if (isLink && isTimeout) {
+            return; // 内核会自行取消
+        }
+        auto* sqe = ::io_uring_get_sqe(ring);
+        if (!sqe) {
+            ::io_uring_submit(ring);
+            sqe = ::io_uring_get_sqe(ring);
+        }
+        if (sqe) [[likely]] {
+            ::io_uring_prep_cancel64(sqe, reinterpret_cast<std::uint64_t>(this), 0);
+            ::io_uring_sqe_set_data(sqe, nullptr);
+            ++*pendingCnt;
+            ::io_uring_submit(ring);
+        }
+    }
+};
+
+} // namespace internal
+
 struct AioTask {
-    AioTask(::io_uring_sqe* sqe) noexcept
+    AioTask(::io_uring_sqe* sqe, ::io_uring* ring, std::size_t* pendingCnt, internal::AioOp*& head)
         : _sqe{sqe}
+        , _op{new internal::AioOp{this, ring, pendingCnt, head}}
     {
-        ::io_uring_sqe_set_data(_sqe, this);
+        ::io_uring_sqe_set_data(_sqe, _op);
     }
 
 #if 0 // 注意: 不能存在`移动`, 否则 IoUring::makeAioTask 返回就是 构造的新对象; 屏蔽了移动, 反而是编译器优化!
@@ -74,6 +159,7 @@ private:
         int _res;
         ::io_uring_sqe* _sqe;
     };
+    internal::AioOp* _op;
     std::coroutine_handle<> _previous;
 
 public:
@@ -276,11 +362,25 @@ public:
     [[nodiscard]] inline static auto linkTimeout(
         AioTask&& task, AioTask&& timeoutTask
     ) {
-        task._sqe->flags |= IOSQE_IO_LINK;
+        auto* timeoutSqe = timeoutTask._sqe;
+        timeoutTask._op->isTimeout = true;
+        if (task._op->unsubmitted()) [[likely]] {
+            task._sqe->flags |= IOSQE_IO_LINK;
+            task._op->isLink = timeoutTask._op->isLink = true;
+        } else {
+            // 提交队列恰好在二者之间被提交了, 无法再链接; 退化为独立的超时操作
+            auto* ts = reinterpret_cast<struct ::__kernel_timespec*>(timeoutSqe->addr);
+            ::io_uring_prep_timeout(timeoutSqe, ts, 0, 0);
+            ::io_uring_sqe_set_data(timeoutSqe, timeoutTask._op);
+        }
         return whenAny(std::move(task), std::move(timeoutTask));
     }
 
-    ~AioTask() noexcept = default;
+    ~AioTask() noexcept {
+        if (_op) {
+            _op->abandon();
+        }
+    }
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From 1b7a4a22501bce82f29e921e207738acb657b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 29/56] fix: serial executors wedged or terminated the process
 when a task threw, ran tasks concurrently after clear(), and touched
 destroyed coroutines after clear() or destruction

---
 .../coroutine/executor/SerialExecutor.hpp     | 188 +++++++++++-------
 .../coroutine/executor/SerialExecutorPro.hpp  | 115 +----------
 2 files changed, 120 insertions(+), 183 deletions(-)

diff --git a/include/HXLibs/coroutine/executor/SerialExecutor.hpp b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
index eefe5af..7f43eb3 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutor.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
@@ -18,9 +18,10 @@
  * limitations under the License.
  */
 
-#include <queue>
 #include <list>
 #include <memory>
+#include <utility>
+#include <exception>
 
 #include <HXLibs/coroutine/task/Task.hpp>
 
@@ -30,82 +31,106 @@ namespace HX::coroutine {
  * @brief 协程串行调度器
  */
 class SerialExecutor {
-    struct SerialTask {
-        struct promise_type {
-            StopAwaiter<true> initial_suspend() noexcept { return {}; }
-            auto get_return_object() noexcept {
-                return std::coroutine_handle<promise_type>::from_promise(*this);
+    struct State {
+        bool isRun{};       // 是否有任务占用
+        bool isHandOver{};  // 是否正在移交占用权
+        bool isNext{};      // 移交期间, 占用权是否又被释放了
+        std::list<std::coroutine_handle<>*> q; // 正在等待的协程 (指向等待体, 等待体析构时会移除自己)
+    };
+
+    // 等待轮到自己
+    struct [[nodiscard]] TurnAwaiter {
+        explicit TurnAwaiter(State& state) noexcept
+            : _state{state}
+        {}
+        TurnAwaiter& operator=(TurnAwaiter&&) noexcept = delete;
+        bool await_ready() const noexcept { return false; }
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> co) {
+            _co = co;
+            _state.q.push_back(&_co);
+            if (_state.isRun) {
+                return std::noop_coroutine();
             }
-            StopAwaiter<false> final_suspend() noexcept {
-                _list->erase(_it);
-                return {};
+            _state.isRun = true;
+            return pop(_state);
+        }
+        void await_resume() const noexcept {}
+        ~TurnAwaiter() noexcept {
+            if (_co) { // 在等待时被析构
+                _state.q.remove(&_co);
             }
-            void return_void() noexcept { }
-            void unhandled_exception() noexcept { std::terminate(); }
-
-            std::list<std::coroutine_handle<promise_type>>* _list{};
-            std::list<std::coroutine_handle<promise_type>>::iterator _it;
-        };
-
-        using HandleType = std::coroutine_handle<promise_type>;
-
-        SerialTask(HandleType h) : _handle(h) {}
-        SerialTask& operator=(SerialTask&&) = delete;
+        }
 
-        SerialTask&& via(std::list<SerialTask::HandleType>& runList) && {
-            _handle.promise()._list = &runList;
-            _handle.promise()._it = runList.insert(runList.end(), _handle);
-            return std::move(*this);
+        static std::coroutine_handle<> pop(State& state) noexcept {
+            auto* co = state.q.front();
+            state.q.pop_front();
+            return std::exchange(*co, nullptr);
         }
-        void detach() && { _handle.resume(); }
     private:
-        HandleType _handle;
-    };
-
-    struct State {
-        bool isRun{};
-        // 传递引用, 防止其因为析构引发的 段错误
-        std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>>> q;
-        // SerialTask 运行队列
-        std::list<SerialTask::HandleType> runList;
+        State& _state;
+        std::coroutine_handle<> _co{};
     };
 
-    struct SerialAwaiter {
-        explicit SerialAwaiter(SerialExecutor& mtx, coroutine::Task<> const& task)
-            : _mtx{mtx}
-            , _task{task}
+    // 移交占用权给下一个
+    struct [[nodiscard]] HandOverAwaiter {
+        explicit HandOverAwaiter(std::shared_ptr<State> const& state) noexcept
+            : _state{state}
         {}
-        constexpr bool await_ready() const noexcept { return false; }
-        bool await_suspend(std::coroutine_handle<> co) const noexcept {
-            [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
-            if (!isRun) {
-                q.push({_task, std::noop_coroutine()});
-                return false;
+        HandOverAwaiter& operator=(HandOverAwaiter&&) noexcept = delete;
+        bool await_ready() const noexcept {
+            if (_state->isHandOver) {
+                // 外层正在移交, 由外层恢复下一个, 以免递归
+                return _state->isNext = true;
+            }
+            return false;
+        }
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> co) noexcept {
+            // 恢复下一个时, 当前协程以及调度器都可能被析构
+            bool isDestroy = false;
+            _isDestroy = &isDestroy;
+            auto state = _state;
+            state->isHandOver = true;
+            do {
+                state->isNext = false;
+                if (state->q.empty()) {
+                    state->isRun = false;
+                    break;
+                }
+                TurnAwaiter::pop(*state).resume();
+            } while (state->isNext);
+            state->isHandOver = false;
+            if (isDestroy) {
+                return std::noop_coroutine();
+            }
+            _isDestroy = nullptr;
+            return co;
+        }
+        void await_resume() const noexcept {}
+        ~HandOverAwaiter() noexcept {
+            if (_isDestroy) {
+                *_isDestroy = true;
             }
-            q.push({_task, co});
-            return true;
         }
-        constexpr void await_resume() const noexcept {}
     private:
-        SerialExecutor& _mtx;
-        coroutine::Task<> const& _task;
+        std::shared_ptr<State> _state;
+        bool* _isDestroy{};
     };
 
-    coroutine::Task<> start() {
-        auto runListPtr = _runList;
-        auto& [isRun, q, runList] = *runListPtr;
-        auto [task, co] = std::move(q.front());
-        q.pop();
-        co_await task;
-        co.resume();
-        if (!isRun || q.empty()) {
-            isRun = false;
-            co_return;
+    // 占用者在任务完成前被析构
+    struct Owner {
+        explicit Owner(State& state) noexcept
+            : _state{&state}
+        {}
+        Owner& operator=(Owner&&) noexcept = delete;
+        void release() noexcept { _state = nullptr; }
+        ~Owner() noexcept {
+            if (_state) {
+                _state->isRun = false;
+            }
         }
-        [this]() -> SerialTask {
-            co_await start();
-        }().via(runList).detach();
-    }
+    private:
+        State* _state;
+    };
 public:
     /**
      * @brief 串行调度
@@ -113,32 +138,43 @@ public:
      * @note 也就是说, 需要特别小心 whenAny 的使用
      */
     coroutine::Task<> serial(coroutine::Task<> const& t) {
-        co_await SerialAwaiter{*this, t};
-        if (auto& isRun = _runList->isRun; !isRun) {
-            isRun = true;
-            co_await start();
+        auto state = _state;
+        co_await TurnAwaiter{*state};
+        std::exception_ptr ex{};
+        {
+            Owner owner{*state};
+            try {
+                co_await t;
+            } catch (...) {
+                ex = std::current_exception();
+            }
+            owner.release();
+        }
+        co_await HandOverAwaiter{state};
+        if (ex) [[unlikely]] {
+            std::rethrow_exception(ex);
         }
     }
 
     /**
      * @brief 清空所有正在等待的串行任务
+     * @note 已经开始的任务不受影响
      */
-    void clear() {
-        auto& [isRun, q, runList] = *_runList;
-        q = {};
-        isRun = false;
-        for (auto& co : runList)
-            co.destroy();
-        runList.clear();
+    void clear() noexcept {
+        while (_state->q.size()) {
+            TurnAwaiter::pop(*_state);
+        }
     }
 
+    SerialExecutor() = default;
+    SerialExecutor& operator=(SerialExecutor&&) noexcept = delete;
+
     ~SerialExecutor() noexcept {
         clear();
     }
 private:
     // @todo 需要一个协程的共享智能指针
-    const std::shared_ptr<State> _runList = std::make_shared<State>(
-        State{false, {}, {}});
+    const std::shared_ptr<State> _state = std::make_shared<State>();
 };
 
 } // namespace HX::coroutine
diff --git a/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp b/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp
index 9fc4a97..7568851 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutorPro.hpp
@@ -18,14 +18,9 @@
  * limitations under the License.
  */
 
-#include <queue>
-#include <list>
-#include <memory>
-
 #include <HXLibs/coroutine/task/Task.hpp>
 #include <HXLibs/coroutine/loop/EventLoop.hpp>
-
-#include <HXLibs/log/debug/RaiiLog.hpp> // debug
+#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
 
 namespace HX::coroutine {
 
@@ -34,87 +29,6 @@ namespace HX::coroutine {
  * @todo 一个废弃的方案
  */
 class SerialExecutorPro {
-    struct SerialTask {
-        struct promise_type {
-            StopAwaiter<true> initial_suspend() noexcept { return {}; }
-            auto get_return_object() noexcept {
-                return std::coroutine_handle<promise_type>::from_promise(*this);
-            }
-            StopAwaiter<false> final_suspend() noexcept {
-                _list->erase(_it);
-                return {};
-            }
-            constexpr void return_void() noexcept { }
-            void unhandled_exception() noexcept { std::terminate(); }
-            constexpr void result() const noexcept { }
-
-            std::list<std::coroutine_handle<promise_type>>* _list{};
-            std::list<std::coroutine_handle<promise_type>>::iterator _it;
-            std::coroutine_handle<> _previous{};
-        };
-
-        using HandleType = std::coroutine_handle<promise_type>;
-
-        SerialTask(HandleType h) : _handle(h) {}
-        SerialTask& operator=(SerialTask&&) = delete;
-
-        SerialTask&& via(std::list<SerialTask::HandleType>& runList) && {
-            _handle.promise()._list = &runList;
-            _handle.promise()._it = runList.insert(runList.end(), _handle);
-            return std::move(*this);
-        }
-        void detach() && { _handle.resume(); }
-        constexpr ExitAwaiter<void, promise_type> operator co_await() const noexcept {
-            return ExitAwaiter<void, promise_type>{_handle};
-        }
-    private:
-        HandleType _handle;
-    };
-
-    struct State {
-        bool isRun{};
-        // 传递引用, 防止其因为析构引发的 段错误
-        std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>>> q;
-        // SerialTask 运行队列
-        std::list<SerialTask::HandleType> runList;
-    };
-
-    struct SerialAwaiter {
-        explicit SerialAwaiter(SerialExecutorPro& mtx, coroutine::Task<> const& task)
-            : _mtx{mtx}
-            , _task{task}
-        {}
-        constexpr bool await_ready() const noexcept { return false; }
-        constexpr bool await_suspend(std::coroutine_handle<> co) const noexcept {
-            [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
-            if (!isRun) {
-                q.push({_task, std::noop_coroutine()});
-                return false;
-            }
-            q.push({_task, co});
-            return true;
-        }
-        constexpr void await_resume() const noexcept {}
-    private:
-        SerialExecutorPro& _mtx;
-        coroutine::Task<> const& _task;
-    };
-
-    SerialTask start() {
-        auto runListPtr = _runList;
-        auto& [isRun, q, runList] = *runListPtr;
-        auto [task, co] = std::move(q.front());
-        q.pop();
-        co_await task;
-        co.resume();
-        if (!isRun || q.empty()) {
-            isRun = false;
-            co_return;
-        }
-        [this, &runList]() -> SerialTask {
-            co_await start().via(runList);
-        }().via(runList).detach();
-    }
 public:
     explicit SerialExecutorPro(EventLoop& loop)
         : _loop{loop}
@@ -126,34 +40,21 @@ public:
      * @note 也就是说, 需要特别小心 whenAny 的使用
      */
     coroutine::Task<> serial(coroutine::Task<> const& t) {
-        co_await SerialAwaiter{*this, t};
-        if (auto& isRun = _runList->isRun; !isRun) {
-            isRun = true;
-            co_await start().via(_runList->runList);
-        }
-        co_await _loop.makeTimer().yield();
+        auto& loop = _loop;
+        co_await _executor.serial(t);
+        co_await loop.makeTimer().yield();
     }
 
     /**
      * @brief 清空所有正在等待的串行任务
+     * @note 已经开始的任务不受影响
      */
-    void clear() {
-        auto& [isRun, q, runList] = *_runList;
-        q = {};
-        isRun = false;
-        for (auto& co : runList)
-            co.destroy();
-        runList.clear();
-    }
-
-    ~SerialExecutorPro() noexcept {
-        clear();
+    void clear() noexcept {
+        _executor.clear();
     }
 private:
     EventLoop& _loop;
-    // @todo 需要一个协程的共享智能指针
-    const std::shared_ptr<State> _runList = std::make_shared<State>(
-        State{false, {}, {}});
+    SerialExecutor _executor;
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From 04185788f264f0964b3baefb00c24a0c6c4cd38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 30/56] fix: AsyncFile opened the wrong path for a string_view
 that is not NUL-terminated, leaked the descriptor of directories, special
 files and files opened relative to a directory, and continued at the old
 offset after reopening

---
 include/HXLibs/utils/FileUtils.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 061eff4..746a180 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -24,6 +24,10 @@
 #include <filesystem>
 #include <span>
 
+#if defined(__linux__)
+    #include <sys/stat.h>
+#endif
+
 #include <HXLibs/platform/LocalFdApi.hpp>
 
 #include <HXLibs/coroutine/task/Task.hpp>
@@ -129,18 +133,23 @@ public:
         ModeType mode = 0644
     ) {
 #if defined(__linux__)
+        std::string pathStr{path}; // path 不一定以 '\0' 结尾
         _fd = HXLIBS_CHECK_EVENT_LOOP(
             co_await _eventLoop.makeAioTask().prepOpenat(
-                dirfd, path.data(), static_cast<int>(flags), mode
+                dirfd, pathStr.c_str(), static_cast<int>(flags), mode
             )
         );
+        // 以打开的文件为准: 路径可能是相对 dirfd 的, 也可能不是普通文件
+        struct ::stat st {};
+        _fileSize = ::fstat(_fd, &st) == 0 && S_ISREG(st.st_mode)
+            ? static_cast<std::uintmax_t>(st.st_size) : 0;
 #elif defined(_WIN32)
         auto params =
             platform::Win32FileParamsBuilder(flags).enableIocp(true)
                                                    .build();
 
         HANDLE fileHandle = ::CreateFileA(
-            path.data(),                            // 文件名
+            std::string{path}.c_str(),              // 文件名
             params.access,                          // 读写权限
             platform::Win32FileParams::shareMode,   // 共享模式
             nullptr,                                // 默认安全属性
@@ -158,11 +167,11 @@ public:
         }
 
         _fd = reinterpret_cast<LocalFdType>(fileHandle);
+        _fileSize = FileUtils::getFileSize(path);
         co_return;
 #else
         #error "Unsupported platform"
 #endif
-        _fileSize = FileUtils::getFileSize(path);
     }
 
     /**
@@ -312,6 +321,7 @@ public:
     coroutine::Task<> close() {
         auto fd = _fd;
         _fd = kInvalidLocalFd;
+        _offset = 0; // 下次打开的文件从头开始读取
         // 如果这里抛出异常, 会导致 析构也抛出异常, 这个的异常不应该导致析构也异常!!!
         HXLIBS_CHECK_EVENT_LOOP(
             co_await _eventLoop.makeAioTask().prepClose(fd)
-- 
2.43.0


From dded91ec3a2fadd775062a4d15cc81a6997facfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 31/56] fix: http bodies and header lines were decoded
 differently (lost, duplicated or misread) depending on how the bytes were
 segmented, and pipelined bytes were dropped

---
 .../HXLibs/net/protocol/http/BodyDecoder.hpp  | 196 +++++++++++++
 include/HXLibs/net/protocol/http/Request.hpp  | 244 ++++++----------
 include/HXLibs/net/protocol/http/Response.hpp | 261 +++---------------
 3 files changed, 323 insertions(+), 378 deletions(-)
 create mode 100644 include/HXLibs/net/protocol/http/BodyDecoder.hpp

diff --git a/include/HXLibs/net/protocol/http/BodyDecoder.hpp b/include/HXLibs/net/protocol/http/BodyDecoder.hpp
new file mode 100644
index 0000000..54c61ca
--- /dev/null
+++ b/include/HXLibs/net/protocol/http/BodyDecoder.hpp
@@ -0,0 +1,196 @@
+#pragma once
+/*
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *	  https://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+#include <algorithm>
+#include <limits>
+#include <stdexcept>
+#include <string>
+#include <string_view>
+
+#include <HXLibs/net/protocol/http/Http.hpp>
+
+namespace HX::net::internal {
+
+/**
+ * @brief 去除首尾的空格与水平制表符 (OWS)
+ */
+constexpr std::string_view trimOws(std::string_view sv) noexcept {
+    while (!sv.empty() && (sv.front() == ' ' || sv.front() == '\t')) {
+        sv.remove_prefix(1);
+    }
+    while (!sv.empty() && (sv.back() == ' ' || sv.back() == '\t')) {
+        sv.remove_suffix(1);
+    }
+    return sv;
+}
+
+/**
+ * @brief 解析一行 (非空) 头部字段, 并且写入到 headers
+ * @param headers 头部
+ * @param last 上一次解析的头部字段; 没有则为 `.end()`
+ * @param line 一行内容 (不含 CRLF)
+ * @throw std::runtime_error 不是合法的头部字段
+ */
+inline void parserHeaderLine(
+    HeaderHashMap& headers,
+    HeaderHashMap::iterator& last,
+    std::string_view line
+) {
+    if (line.front() == ' ' || line.front() == '\t') { // 折行: 接在上一个解析的键值对的值尾
+        if (last == headers.end()) [[unlikely]] {
+            throw std::runtime_error{"Http header: no field to continue"};
+        }
+        last->second.append(line);
+        return;
+    }
+    auto pos = line.find(':');
+    if (pos == 0 || pos == std::string_view::npos) [[unlikely]] {
+        throw std::runtime_error{"Http header: not a field"};
+    }
+    // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
+    std::string key{line.substr(0, pos)};
+    for (char& c : key) {
+        c = static_cast<char>(toLower(static_cast<unsigned char>(c)));
+    }
+    last = headers.emplace(
+        std::move(key), std::string{trimOws(line.substr(pos + 1))}
+    ).first;
+}
+
+/**
+ * @brief Http 消息体解码器 (content-length / chunked), 与数据如何分片无关
+ */
+class BodyDecoder {
+    enum class State {
+        None,       // 还没有开始
+        Length,     // content-length: 剩余 _remaining 字节
+        ChunkSize,  // 分块: 等待 `大小\r\n`
+        ChunkData,  // 分块: 剩余 _remaining 字节
+        ChunkEnd,   // 分块: 等待分块数据后面的 `\r\n`
+        Trailer,    // 分块: 等待尾部字段或者空行
+        Done        // 已经读完
+    };
+public:
+    void reset() noexcept {
+        _state = State::None;
+        _remaining = 0;
+    }
+
+    bool isDone() const noexcept {
+        return _state == State::Done;
+    }
+
+    /**
+     * @brief 依据头部确定消息体的格式 (仅第一次调用有效)
+     */
+    void begin(HeaderHashMap const& headers) {
+        if (_state != State::None) {
+            return;
+        }
+        if (headers.contains(TRANSFER_ENCODING_SV)) {
+            /**
+             * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25)
+             */
+            _state = State::ChunkSize;
+        } else if (auto it = headers.find(CONTENT_LENGTH_SV); it != headers.end()) {
+            _remaining = toSize<10>(it->second);
+            _state = _remaining ? State::Length : State::Done;
+        } else {
+            _state = State::Done;
+        }
+    }
+
+    /**
+     * @brief 从 buf 头部取走下一段消息体
+     * @param buf [in, out] 还没有解析的数据; 会移除已经解析的部分
+     * @return 一段消息体; 如果为空, 则要么已经 `isDone()`, 要么需要更多数据
+     */
+    std::string_view next(std::string_view& buf) {
+        for (;;) {
+            switch (_state) {
+                case State::Length:
+                case State::ChunkData: {
+                    auto res = buf.substr(0, std::min(_remaining, buf.size()));
+                    buf.remove_prefix(res.size());
+                    _remaining -= res.size();
+                    if (!_remaining) {
+                        _state = _state == State::Length ? State::Done : State::ChunkEnd;
+                    }
+                    return res;
+                }
+                case State::ChunkSize: {
+                    auto pos = buf.find(CRLF);
+                    if (pos == std::string_view::npos) {
+                        return {};
+                    }
+                    // 分块扩展 (`;`后面的) 没有意义, 忽略
+                    auto size = buf.substr(0, pos);
+                    _remaining = toSize<16>(trimOws(size.substr(0, size.find(';'))));
+                    _state = _remaining ? State::ChunkData : State::Trailer;
+                    buf.remove_prefix(pos + CRLF.size());
+                    break;
+                }
+                case State::ChunkEnd:
+                    if (buf.size() < CRLF.size()) {
+                        return {};
+                    }
+                    if (!buf.starts_with(CRLF)) [[unlikely]] {
+                        throw std::runtime_error{"Http body: chunk is not terminated"};
+                    }
+                    buf.remove_prefix(CRLF.size());
+                    _state = State::ChunkSize;
+                    break;
+                case State::Trailer: {
+                    auto pos = buf.find(CRLF);
+                    if (pos == std::string_view::npos) {
+                        return {};
+                    }
+                    if (!pos) {
+                        _state = State::Done;
+                    }
+                    buf.remove_prefix(pos + CRLF.size());
+                    break;
+                }
+                default:
+                    return {};
+            }
+        }
+    }
+private:
+    template <std::size_t Base>
+    static std::size_t toSize(std::string_view str) {
+        constexpr auto kMax = std::numeric_limits<std::size_t>::max();
+        std::size_t res = 0;
+        for (char c : str) {
+            std::size_t d = c >= '0' && c <= '9' ? static_cast<std::size_t>(c - '0')
+                          : c >= 'a' && c <= 'f' ? static_cast<std::size_t>(c - 'a' + 10)
+                          : c >= 'A' && c <= 'F' ? static_cast<std::size_t>(c - 'A' + 10)
+                          : Base;
+            if (d >= Base || res > (kMax - d) / Base) [[unlikely]] {
+                throw std::runtime_error{"Http body: bad length"};
+            }
+            res = res * Base + d;
+        }
+        if (str.empty()) [[unlikely]] {
+            throw std::runtime_error{"Http body: bad length"};
+        }
+        return res;
+    }
+
+    State _state = State::None;
+    std::size_t _remaining = 0;
+};
+
+} // namespace HX::net::internal
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8fd3968..8899253 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -23,6 +23,7 @@
 #include <stdexcept>
 
 #include <HXLibs/container/ArrayBuf.hpp>
+#include <HXLibs/net/protocol/http/BodyDecoder.hpp>
 #include <HXLibs/net/protocol/http/Http.hpp>
 #include <HXLibs/net/socket/IO.hpp>
 #include <HXLibs/utils/FileUtils.hpp>
@@ -88,7 +89,6 @@ public:
         , _requestHeaders()
         , _requestHeadersIt(_requestHeaders.end())
         , _body()
-        , _remainingBodyLen(std::nullopt)
         , _io{io}
         , _boundary{}
     {}
@@ -305,7 +305,7 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserReqHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserReqHead()) {
+        for (std::size_t n = _parserReqHead(); n; n = _parserReqHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -406,32 +406,40 @@ public:
     template <typename Timeout = decltype(5_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> saveToFile(std::string_view path) {
-        utils::AsyncFile file{_io};
-        co_await file.open(path, utils::OpenMode::Write);
         if (_completeBody) [[unlikely]] {
             // 已经解析过 Http Body 了
             throw std::runtime_error{"Have already analyzed the http body"};
         }
+        utils::AsyncFile file{_io};
+        co_await file.open(path, utils::OpenMode::Write);
         _completeBody = true;
-        for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
-            auto res = co_await _io.template recvLinkTimeout<Timeout>(
-                // 保留原有的数据
-                {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
-            );
-            if (res.index() == 1) [[unlikely]] {
-                // 超时
-                throw std::runtime_error{"parseBody: Recv timeout"};
-            }
-            auto recvN = HXLIBS_CHECK_EVENT_LOOP(
-                (res.template get<0, exception::ExceptionMode::Nothrow>())
-            );
-            if (recvN == 0) [[unlikely]] {
-                // 连接断开
-                throw std::runtime_error{"parseBody: Connection is Broken"};
+        std::exception_ptr err;
+        try {
+            for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
+                auto res = co_await _io.template recvLinkTimeout<Timeout>(
+                    // 保留原有的数据
+                    {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
+                );
+                if (res.index() == 1) [[unlikely]] {
+                    // 超时
+                    throw std::runtime_error{"parseBody: Recv timeout"};
+                }
+                auto recvN = HXLIBS_CHECK_EVENT_LOOP(
+                    (res.template get<0, exception::ExceptionMode::Nothrow>())
+                );
+                if (recvN == 0) [[unlikely]] {
+                    // 连接断开
+                    throw std::runtime_error{"parseBody: Connection is Broken"};
+                }
+                _recvBuf.addSize(static_cast<std::size_t>(recvN));
             }
-            _recvBuf.addSize(static_cast<std::size_t>(recvN));
+        } catch (...) {
+            err = std::current_exception();
         }
         co_await file.close();
+        if (err) {
+            std::rethrow_exception(err);
+        }
     }
 
     // @todo 
@@ -504,6 +512,9 @@ public:
         if (_wildcarDataArr.empty()) [[unlikely]] {
             throw std::runtime_error("No path parameters available to parse.");
         }
+        if (index >= _wildcarDataArr.size()) [[unlikely]] {
+            throw std::out_of_range("The index of the path parameter is out of range.");
+        }
         return _wildcarDataArr[index];
     }
 
@@ -544,16 +555,21 @@ public:
         if (!_completeBody) {
             // 250 ms, 如果解析不完, 就滚蛋! 传递这么多没用的干什么?!
             co_await parseBody<decltype(250_ms)>();
+        } else if (!_bodyDecoder.isDone()) [[unlikely]] {
+            // 请求体没有读完 (读取时出错), 剩下的数据不是下一个请求
+            throw std::runtime_error{"The http body has not been completely read"};
         }
         _completeBody = false;
         _boundary = {};
         _requestLine.clear();
         _requestHeaders.clear();
         _requestHeadersIt = _requestHeaders.end();
-        _recvBuf.clear();
+        // 不清空 _recvBuf: 可能已经读取到下一个请求的数据了
         _body.clear();
         _completeRequestHeader = false;
-        _remainingBodyLen.reset();
+        _bodyDecoder.reset();
+        _wildcarDataArr = {};
+        _urlWildcardData = {};
     }
 
 private:
@@ -580,8 +596,8 @@ private:
     // 请求体
     std::string _body;
 
-    // @brief 仍需读取的请求体长度
-    std::optional<std::size_t> _remainingBodyLen;
+    // @brief 请求体解码器
+    internal::BodyDecoder _bodyDecoder;
 
     /**
      * @brief 路径变量, 如`/home/{id}`的`id`, 
@@ -674,9 +690,12 @@ private:
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
         switch ((_completeRequestHeader << 1) | (!_requestLine.empty())) {
             case 0x00: { // 什么也没有解析, 开始解析请求行
+                while (buf.starts_with(CRLF)) { // 请求行之前的空行, 忽略
+                    buf = buf.substr(CRLF.size());
+                }
                 std::size_t pos = buf.find(CRLF);
-                if (pos == std::string_view::npos) [[unlikely]] { // 不可能事件
-                    return IO::kBufMaxSize;
+                if (pos == std::string_view::npos) [[unlikely]] {
+                    return _needMore(buf);
                 }
                 std::string_view reqLine = buf.substr(0, pos);
 
@@ -685,12 +704,9 @@ private:
                     reqLine, " "sv
                 );
 
-                if (_requestLine.size() < 3) [[unlikely]] {
-                    return IO::kBufMaxSize;
-                } 
-                // else if (_requestLine.size() > 3) [[unlikely]] {
-                // @todo 理论上不会出现
-                // }
+                if (_requestLine.size() != 3) [[unlikely]] {
+                    throw std::runtime_error{"Http request: bad request line"};
+                }
 
                 buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 [[fallthrough]];
@@ -698,28 +714,19 @@ private:
             case 0x01: { // 解析完请求行, 开始解析请求头
                 /**
                  * @brief 请求头
-                 * 通过`\r\n`分割后, 取最前面的, 先使用最左的`:`以判断是否是需要作为独立的键值对;
-                 * -  如果找不到`:`, 并且 非空, 那么它需要接在上一个解析的键值对的值尾
-                 * -  否则即请求头解析完毕!
+                 * 通过`\r\n`分割后, 取最前面的, 空行即请求头解析完毕
                  */
                 while (!_completeRequestHeader) { // 请求头未解析完
                     std::size_t pos = buf.find(CRLF);
                     if (pos == std::string_view::npos) { // 没有读取完
-                        _recvBuf.moveToHead(buf);
-                        return IO::kBufMaxSize;
+                        return _needMore(buf);
                     }
-                    std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) [[unlikely]] {     // 找不到 ": "
-                        if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输请求头的
-                            _requestHeadersIt->second.append(subKVStr);
-                        } else { // 请求头解析完毕!
-                            _completeRequestHeader = true;
-                        }
-                    } else {
-                        // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
-                        utils::StringUtil::toLower(p.first);
-                        _requestHeadersIt = _requestHeaders.insert(p).first;
+                    if (pos) {
+                        internal::parserHeaderLine(
+                            _requestHeaders, _requestHeadersIt, buf.substr(0, pos)
+                        );
+                    } else { // 请求头解析完毕!
+                        _completeRequestHeader = true;
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 }
@@ -739,69 +746,32 @@ private:
         return 0;
     }
 
+    /**
+     * @brief 保留还没有解析的数据, 并且继续读取
+     * @return std::size_t 还需要解析的字节数
+     */
+    std::size_t _needMore(std::string_view buf) {
+        _recvBuf.moveToHead(buf);
+        if (_recvBuf.size() == _recvBuf.max_size()) [[unlikely]] {
+            throw std::runtime_error{"Http request: line is too long"};
+        }
+        return IO::kBufMaxSize;
+    }
+
     /**
      * @brief 解析 Body
      * @return std::size_t 还需要解析的字节数
      */
     std::size_t _parserReqBody() {
-        using namespace std::string_literals;
-        using namespace std::string_view_literals;
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-            // 计算剩余待解析字节数
-            if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
-            }
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
-                return *_remainingBodyLen;
-            }
-        } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
-            /**
-             * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
-             * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
-            for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
-            }
+        _bodyDecoder.begin(_requestHeaders);
+        for (auto data = _bodyDecoder.next(buf); data.size(); data = _bodyDecoder.next(buf)) {
+            _body.append(data);
+        }
+        if (!_bodyDecoder.isDone()) {
+            return _needMore(buf);
         }
+        _recvBuf.moveToHead(buf); // 剩下的是下一个请求的
         return 0;
     }
 
@@ -810,65 +780,15 @@ private:
      * @return std::size_t 还需要解析的字节数
      */
     coroutine::Task<std::size_t> _coParserReqBody(utils::AsyncFile& file) {
-        using namespace std::string_literals;
-        using namespace std::string_view_literals;
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        if (_requestHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-            // 计算剩余待解析字节数
-            if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
-            }
-            
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                co_await file.write(buf); // _body.append(buf);
-                _recvBuf.clear();
-                co_return *_remainingBodyLen;
-            }
-        } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
-            /**
-             * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
-             * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                } else { // 读取完了
-                    co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
-            for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    co_return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    co_return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                }
-                co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
-            }
+        _bodyDecoder.begin(_requestHeaders);
+        for (auto data = _bodyDecoder.next(buf); data.size(); data = _bodyDecoder.next(buf)) {
+            co_await file.write(data);
+        }
+        if (!_bodyDecoder.isDone()) {
+            co_return _needMore(buf);
         }
+        _recvBuf.moveToHead(buf); // 剩下的是下一个请求的
         co_return 0;
     }
 };
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d92285..201bc5e 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -24,6 +24,7 @@
 #include <unordered_map>
 #include <optional>
 
+#include <HXLibs/net/protocol/http/BodyDecoder.hpp>
 #include <HXLibs/net/protocol/http/Http.hpp>
 #include <HXLibs/net/protocol/http/Status.hpp>
 #include <HXLibs/net/protocol/http/MimeType.hpp>
@@ -183,7 +184,7 @@ public:
     template <typename Timeout = decltype(30_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserResHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserResHead()) {
+        for (std::size_t n = _parserResHead(); n; n = _parserResHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -736,6 +737,9 @@ public:
         _sendBuf.clear();
         _completeResponseHeader = false;
         _completeBody = false;
+        _bodyDecoder.reset();
+        _isHead = false;
+        _isClose = false;
     }
 
     /**
@@ -769,10 +773,15 @@ private:
     decltype(_responseHeaders)::iterator _responseHeadersIt; 
 
     std::vector<char> _sendBuf;                     // 用于发送数据的缓冲区
-    std::optional<std::size_t> _remainingBodyLen;   // 仍需读取的请求体长度
+    internal::BodyDecoder _bodyDecoder;             // 响应体解码器
     IOType& _io;
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
+    bool _isHead = false;                           // [仅服务端] 是否为 HEAD 请求的响应 (没有响应体)
+    bool _isClose = false;                          // [仅服务端] 发送后是否需要断开连接
+
+    template <typename>
+    friend struct ConnectionHandler;
 
     template <typename>
     friend class WebSocketFactory;
@@ -867,16 +876,19 @@ private:
             case 0x00: { // 响应行
                 if (_statusLine.empty()) { // 响应行还未解析
                     std::size_t pos = buf.find(CRLF);
-                    if (pos == std::string_view::npos) [[unlikely]] { // 不可能事件
-                        return IO::kBufMaxSize;
+                    if (pos == std::string_view::npos) [[unlikely]] {
+                        return _needMore(buf);
                     }
 
                     // 解析响应行, 注意 不能按照空格直接切分! 因为 HTTP/1.1 404 NOF FOND\r\n
                     _statusLine = utils::StringUtil::split<std::string>(
                         buf.substr(0, pos), " "sv
                     );
-                    if (_statusLine.size() < 3) [[unlikely]] {
-                        return IO::kBufMaxSize;
+                    if (_statusLine.size() < 2) [[unlikely]] {
+                        throw std::runtime_error{"Http response: bad status line"};
+                    }
+                    if (_statusLine.size() == 2) { // 没有状态信息
+                        _statusLine.emplace_back();
                     }
                     if (_statusLine.size() > 3) {
                         auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
@@ -893,28 +905,19 @@ private:
             case 0x01: { // 响应头
                 /**
                  * @brief 请求头
-                 * 通过`\r\n`分割后, 取最前面的, 先使用最左的`:`以判断是否是需要作为独立的键值对;
-                 * -  如果找不到`:`, 并且 非空, 那么它需要接在上一个解析的键值对的值尾
-                 * -  否则即请求头解析完毕!
+                 * 通过`\r\n`分割后, 取最前面的, 空行即请求头解析完毕
                  */
                 while (!_completeResponseHeader) { // 响应头未解析完
                     std::size_t pos = buf.find(CRLF);
                     if (pos == std::string_view::npos) { // 没有读取完
-                        _recvBuf.moveToHead(buf);
-                        return IO::kBufMaxSize;
+                        return _needMore(buf);
                     }
-                    std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) {                  // 找不到 ": "
-                        if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输响应头的
-                            _responseHeadersIt->second.append(subKVStr);
-                        } else { // 请求头解析完毕!
-                            _completeResponseHeader = true;
-                        }
-                    } else {
-                        // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
-                        utils::StringUtil::toLower(p.first);
-                        _responseHeadersIt = _responseHeaders.insert(p).first;
+                    if (pos) {
+                        internal::parserHeaderLine(
+                            _responseHeaders, _responseHeadersIt, buf.substr(0, pos)
+                        );
+                    } else { // 响应头解析完毕!
+                        _completeResponseHeader = true;
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 }
@@ -933,69 +936,31 @@ private:
         return 0; // 解析完毕
     }
 
+    /**
+     * @brief 保留还没有解析的数据, 并且继续读取
+     * @return std::size_t 还需要解析的字节数
+     */
+    std::size_t _needMore(std::string_view buf) {
+        _recvBuf.moveToHead(buf);
+        if (_recvBuf.size() == _recvBuf.max_size()) [[unlikely]] {
+            throw std::runtime_error{"Http response: line is too long"};
+        }
+        return IO::kBufMaxSize;
+    }
+
     /**
      * @brief 解析 Body
      * @return std::size_t 还需要解析的字节数
      */
     std::size_t _parserReqBody() {
-        using namespace std::string_literals;
-        using namespace std::string_view_literals;
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        if (_responseHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-            // 是 空行之后 (\r\n\r\n) 的内容大小(char)
-            if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
-            }
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
-                return *_remainingBodyLen;
-            }
-        } else if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf, 0, *_remainingBodyLen);
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
-            for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
-                    _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
-            }
-        } 
-        // else if (_responseHeaders.contains("content-range")) {
-            // 断点续传 @todo
-        // }
+        _bodyDecoder.begin(_responseHeaders);
+        for (auto data = _bodyDecoder.next(buf); data.size(); data = _bodyDecoder.next(buf)) {
+            _body.append(data);
+        }
+        if (!_bodyDecoder.isDone()) {
+            return _needMore(buf);
+        }
         _recvBuf.moveToHead(buf);
         return 0;
     }
@@ -1060,142 +1025,6 @@ private:
         _recvBuf.moveToHead(buf);
         return false;
     }
-
-    /**
-     * @brief [[仅客户端]] 解析响应
-     * @return 是否需要继续解析;
-     *         `== 0`: 不需要;
-     *         `>  0`: 需要继续解析`size_t`个字节
-     * @warning 假定内容是符合Http协议的
-     */
-    [[deprecated("待删除")]] std::size_t _parserRes2() { 
-        using namespace std::string_literals;
-        using namespace std::string_view_literals;
-        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        switch ((_completeResponseHeader << 1) | (!_statusLine.empty())) {
-            case 0x00: { // 响应行
-                if (_statusLine.empty()) { // 响应行还未解析
-                    std::size_t pos = buf.find(CRLF);
-                    if (pos == std::string_view::npos) [[unlikely]] { // 不可能事件
-                        return IO::kBufMaxSize;
-                    }
-
-                    // 解析响应行, 注意 不能按照空格直接切分! 因为 HTTP/1.1 404 NOF FOND\r\n
-                    _statusLine = utils::StringUtil::split<std::string>(
-                        buf.substr(0, pos), " "sv
-                    );
-                    if (_statusLine.size() < 3) [[unlikely]] {
-                        return IO::kBufMaxSize;
-                    }
-                    if (_statusLine.size() > 3) {
-                        auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
-                        for (std::size_t i = 3; i < _statusLine.size(); ++i) {
-                            msg += ' ';
-                            msg += std::move(_statusLine[i]);
-                        }
-                        _statusLine.resize(3);
-                    }
-                    buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
-                }
-                [[fallthrough]];
-            }
-            case 0x01: { // 响应头
-                /**
-                 * @brief 请求头
-                 * 通过`\r\n`分割后, 取最前面的, 先使用最左的`:`以判断是否是需要作为独立的键值对;
-                 * -  如果找不到`:`, 并且 非空, 那么它需要接在上一个解析的键值对的值尾
-                 * -  否则即请求头解析完毕!
-                 */
-                while (!_completeResponseHeader) { // 响应头未解析完
-                    std::size_t pos = buf.find(CRLF);
-                    if (pos == std::string_view::npos) { // 没有读取完
-                        _recvBuf.moveToHead(buf);
-                        return IO::kBufMaxSize;
-                    }
-                    std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) {                  // 找不到 ": "
-                        if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输响应头的
-                            _responseHeadersIt->second.append(subKVStr);
-                        } else { // 请求头解析完毕!
-                            _completeResponseHeader = true;
-                        }
-                    } else {
-                        // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
-                        utils::StringUtil::toLower(p.first);
-                        _responseHeadersIt = _responseHeaders.insert(p).first;
-                    }
-                    buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
-                }
-                [[fallthrough]];
-            }
-            case 0x03: { // 响应体
-                if (_responseHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-                    // 是 空行之后 (\r\n\r\n) 的内容大小(char)
-                    if (!_remainingBodyLen.has_value()) {
-                        _remainingBodyLen = std::stoull(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
-                    }
-                    if (*_remainingBodyLen != 0) {
-                        *_remainingBodyLen -= buf.size();
-                        _body.append(buf);
-                        _recvBuf.clear();
-                        return *_remainingBodyLen;
-                    }
-                } else if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
-                    if (_remainingBodyLen) { // 处理没有读取完的
-                        if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                            _body += buf;
-                            *_remainingBodyLen -= buf.size();
-                            _recvBuf.clear();
-                            return IO::kBufMaxSize;
-                        } else { // 读取完了
-                            _body.append(buf, 0, *_remainingBodyLen);
-                            buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                            _remainingBodyLen.reset();
-                        }
-                    }
-                    for (;;) {
-                        std::size_t posLen = buf.find(CRLF);
-                        if (posLen == std::string_view::npos) { // 没有读完
-                            _recvBuf.moveToHead(buf);
-                            return IO::kBufMaxSize;
-                        }
-                        if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                            // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                            buf = buf.substr(posLen + 2);
-                            continue;
-                        }
-                        _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                            buf.substr(0, posLen)
-                        ); // 转换为十进制整数
-                        if (!*_remainingBodyLen) { // 解析完毕
-                            return 0;
-                        }
-                        buf = buf.substr(posLen + 2);
-                        if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                            _body += buf;
-                            *_remainingBodyLen -= buf.size();
-                            _recvBuf.clear();
-                            return IO::kBufMaxSize;
-                        }
-                        _body.append(buf.substr(0, *_remainingBodyLen));
-                        buf = buf.substr(*_remainingBodyLen + 2);
-                    }
-                } 
-                // else if (_responseHeaders.contains("content-range")) {
-                    // 断点续传 @todo
-                // }
-                _recvBuf.moveToHead(buf);
-                break;
-            }
-            [[unlikely]] default:
-#ifndef NDEBUG
-                throw std::runtime_error{"parserResponse UB Error"}
-#endif // !NDEBUG
-            ;
-        }
-        return 0; // 解析完毕
-    }
 };
 
 } // namespace HX::net
-- 
2.43.0


From 66e11d73f893d690e7608f815f13a1be7643b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 32/56] fix: HTTP/1.0 and case-insensitive Connection rules
 were ignored, HEAD responses carried a body, and an event stream did not
 announce that closing ends it

---
 include/HXLibs/net/protocol/http/Response.hpp | 12 +++++++--
 .../HXLibs/net/server/ConnectionHandler.hpp   | 27 ++++++++++++++++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 201bc5e..a08ebca 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -384,9 +384,13 @@ public:
         _buildResponseLineAndHeaders();
         // 先发送一版, 告知我们是分块编码
         co_await _io.fullySend(_sendBuf);
-        
+        if (_isHead) { // HEAD 请求的响应没有响应体
+            co_return;
+        }
+
         utils::AsyncFile file{_io};
         co_await file.open(filePath);
+        std::exception_ptr err;
         try {
             std::vector<char> buf(utils::FileUtils::kBufMaxSize);
             // 读取文件
@@ -652,6 +656,8 @@ public:
         // 组装必要的响应
         setResLine(Status::CODE_200);
         addHeader("Content-Type", "text/event-stream");
+        addHeader("Connection", "close"); // 没有声明长度, 以断开连接表示结束
+        _isClose = true;
         // 生成响应行和响应头
         _buildResponseLineAndHeaders();
         // 先发送一版, 告知我们是 SseStream
@@ -858,7 +864,9 @@ private:
         utils::StringUtil::append(_sendBuf, CRLF);
 
         utils::StringUtil::append(_sendBuf, CRLF);
-        utils::StringUtil::append(_sendBuf, std::move(_body));
+        if (!_isHead) { // HEAD 请求的响应没有响应体
+            utils::StringUtil::append(_sendBuf, std::move(_body));
+        }
     }
 
     /**
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 2cf670b..9c43965 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -57,14 +57,15 @@ struct ConnectionHandler {
                     if (!co_await req.template parserReqHead<Timeout>()) [[unlikely]] {
                         break;
                     }
+                    res._isHead = req.getReqType() == "HEAD"sv;
                     // 路由
                     co_await router.getEndpoint(
                         req.getReqType(), 
                         req.getReqPath()
                     )(req, res);
-                    // 只要不是明确写 close 的, 我就复用连接 (keep-alive)
-                    if (auto it = req.getHeaders().find(CONNECTION_SV);
-                        (it != req.getHeaders().end() && it->second == "close"sv)
+                    // 是否复用连接 (keep-alive)
+                    if (res._isClose
+                        || !isKeepAlive(req)
                         || !isRun.load(std::memory_order_acquire)
                     ) [[unlikely]] {
                         break;
@@ -87,6 +88,26 @@ struct ConnectionHandler {
         co_await io.close();
         co_return;
     }
+
+private:
+    /**
+     * @brief 请求是否要求复用连接: `HTTP/1.0` 需要明确写 keep-alive; 此外, 只要不是明确写 close 的就复用
+     */
+    static bool isKeepAlive(HttpRequest<IOType> const& req) {
+        using namespace std::string_view_literals;
+        constexpr internal::TransparentCaseInsensitiveEqual eq{};
+        bool res = req.getProtocolVersion() != "HTTP/1.0"sv;
+        if (auto it = req.getHeaders().find(CONNECTION_SV); it != req.getHeaders().end()) {
+            for (auto option : utils::StringUtil::split<std::string_view>(it->second, ","sv)) {
+                option = internal::trimOws(option);
+                if (eq(option, "close"sv)) {
+                    return false;
+                }
+                res |= eq(option, "keep-alive"sv);
+            }
+        }
+        return res;
+    }
 };
 
 } // namespace HX::net
-- 
2.43.0


From 3329c4824b9348bf70eb840b781167c638eb1040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 33/56] fix: file downloads ended with two terminating chunks
 or swallowed errors, and range requests returned wrong bytes, lengths or
 parts (suffix, clamped, several or unsatisfiable ranges)

---
 include/HXLibs/net/protocol/http/Response.hpp | 281 ++++++++++--------
 1 file changed, 152 insertions(+), 129 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index a08ebca..d9ff0df 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -18,6 +18,7 @@
  * limitations under the License.
  * */
 
+#include <charconv>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -399,10 +400,15 @@ public:
                 len\r\n
                 内容片段
             */
-            _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
-            co_await _io.fullySend(_sendBuf);           // 发送
-            co_await _io.fullySend({buf.data(), size}); // 发送文件
-            for (;;) {
+            if (size) {
+                _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
+                co_await _io.fullySend(_sendBuf);           // 发送
+                co_await _io.fullySend({buf.data(), size}); // 发送文件
+            } else {
+                _buildToChunkedEncoding<true, true>(0);     // 空文件: 0\r\n\r\n
+                co_await _io.fullySend(_sendBuf);
+            }
+            while (size) {
                 size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     /*
@@ -425,9 +431,12 @@ public:
                 co_await _io.fullySend({buf.data(), size});           // 发送文件
             }
         } catch (...) {
-            ; // _io.template send 会抛异常
+            err = std::current_exception(); // _io.template send 会抛异常
         }
         co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err); // 响应不完整, 不能复用连接
+        }
     }
 
 #if defined(__GNUC__) && !defined(__clang__)
@@ -482,62 +491,43 @@ public:
             // 解析范围, 如果访问不合法, 应该返回416
             std::string_view rangeVals = it->second;
             // Range: bytes=<range-start>-<range-end>
-            auto rangeNumArr = utils::StringUtil::split<std::string>(rangeVals.substr(6), ","sv);
-            setResLine(Status::CODE_206);
+            std::vector<std::string_view> rangeNumArr;
+            if (rangeVals.starts_with("bytes="sv)) [[likely]] {
+                rangeNumArr = utils::StringUtil::split<std::string_view>(rangeVals.substr(6), ","sv);
+            }
+            std::vector<std::pair<uint64_t, uint64_t>> ranges;
+            for (auto range : rangeNumArr) {
+                // 多个范围时候, 不合法的范围: 不会报错, 而是忽略!
+                if (auto res = _parserRange(range, fileSize)) [[likely]] {
+                    ranges.push_back(*res);
+                }
+            }
             addHeader("Accept-Ranges", "bytes");
+            if (ranges.empty()) [[unlikely]] {
+                // 范围不合法: 返回416, 表示请求错误
+                setResLine(Status::CODE_416);
+                addHeader("Content-Range", "bytes */" + fileSizeStr);
+                addHeader("Content-Length", "0");
+                _buildResponseLineAndHeaders();
+                co_await _io.fullySend(_sendBuf);
+                co_return ;
+            }
+            setResLine(Status::CODE_206);
 
             if (rangeNumArr.size() == 1) [[likely]] { // 一般都是请求单个范围
-                auto [begin, end] = utils::StringUtil::splitAtFirst(rangeNumArr.back(), "-"sv);
-                if (begin.empty()) {
-                    begin += '0';
-                }
-                if (end.empty()) {
-                    end = std::to_string(fileSize - 1);
-                }
-                uint64_t beginPos = std::stoull(begin);
-                uint64_t endPos = std::stoull(end);
-                if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
-                    // 范围不合法: 返回416, 表示请求错误
-                    setResLine(Status::CODE_416);
-                    _buildResponseLineAndHeaders();
-                    co_await _io.fullySend(_sendBuf);
-                    co_return ;
-                }
+                auto [beginPos, endPos] = ranges.front();
                 uint64_t remaining = endPos - beginPos + 1;
-                addHeader("Content-Range", "bytes " + begin + "-" + end + "/" + fileSizeStr);
+                addHeader("Content-Range", _buildContentRange(beginPos, endPos, fileSizeStr));
                 addHeader("Content-Type", fileType);
                 addHeader("Content-Length", std::to_string(remaining));
                 _buildResponseLineAndHeaders();
                 co_await _io.fullySend(_sendBuf); // 先发一个头
-                
-                utils::AsyncFile file{_io};
-                co_await file.open(filePath);
-                try {
-                    file.setOffset(beginPos);
-                    std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
-                    // 支持偏移量
-                    while (remaining > 0) {
-                        // 读取文件
-                        std::size_t size = static_cast<std::size_t>(
-                            co_await file.read(
-                                buf,
-                                static_cast<uint32_t>(std::min(remaining, buf.size()))
-                            )
-                        );
-                        if (!size) [[unlikely]] {
-                            break;
-                        }
-                        co_await _io.fullySend({buf.data(), size});
-                        remaining -= size;
-                    }
-                } catch (...) {
-                    ;
-                }
-                co_await file.close();
+                co_await _sendFileRange(filePath, beginPos, remaining);
             } else {
                 /*
                     HTTP/1.1 206 Partial Content\r\n
                     Content-Type: multipart/byteranges; boundary=BOUNDARY_STRING\r\n
+                    Content-Length: L\r\n
                     \r\n
                     --BOUNDARY_STRING\r\n
                     Content-Range: bytes X1-Y1/Z\r\n
@@ -553,69 +543,33 @@ public:
                     [BINARY DATA PART 2]\r\n
                     --BOUNDARY_STRING--\r\n
                 */
+                constexpr auto kEnd = "--BOUNDARY_STRING--\r\n"sv;
+                std::vector<std::string> partHeads;
+                uint64_t total = kEnd.size();
+                for (auto const& [beginPos, endPos] : ranges) {
+                    uint64_t remaining = endPos - beginPos + 1;
+                    auto& head = partHeads.emplace_back("--BOUNDARY_STRING\r\n"s);
+                    head += "Content-Range: "sv;
+                    head += _buildContentRange(beginPos, endPos, fileSizeStr);
+                    head += CRLF;
+                    head += "Content-Length: "sv;
+                    head += std::to_string(remaining);
+                    head += CRLF;
+                    head += "Content-Type: application/octet-stream\r\n"sv;
+                    head += CRLF;
+                    total += head.size() + remaining + CRLF.size();
+                }
                 addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
+                addHeader("Content-Length", std::to_string(total));
                 _buildResponseLineAndHeaders();
                 co_await _io.fullySend(_sendBuf); // 先发一个头
-                for (auto& ragen : rangeNumArr) {
-                    auto [begin, end] = utils::StringUtil::splitAtFirst(ragen, "-");
-                    if (begin.empty()) {
-                        begin += '0';
-                    }
-                    if (end.empty()) {
-                        end = std::to_string(fileSize - 1);
-                    }
-                    uint64_t beginPos = std::stoull(begin);
-                    uint64_t endPos = std::stoull(end);
-                    // 范围不合法: 不会报错, 而是忽略!
-                    if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
-                        continue;
-                    }
-                    _sendBuf.clear();
-
-                    uint64_t remaining = endPos - beginPos + 1;
-                    utils::StringUtil::append(_sendBuf, "--BOUNDARY_STRING\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, "Content-Range: bytes "sv);
-                    utils::StringUtil::append(_sendBuf, begin);
-                    utils::StringUtil::append(_sendBuf, "-"sv);
-                    utils::StringUtil::append(_sendBuf, end);
-                    utils::StringUtil::append(_sendBuf, "/"sv);
-                    utils::StringUtil::append(_sendBuf, fileSizeStr);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Length: "sv);
-                    utils::StringUtil::append(_sendBuf, std::to_string(remaining));
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    utils::StringUtil::append(_sendBuf, "Content-Type: application/octet-stream\r\n"sv);
-                    utils::StringUtil::append(_sendBuf, CRLF);
-                    co_await _io.fullySend(_sendBuf); // 先发头
-
-                    utils::AsyncFile file{_io};
-                    co_await file.open(filePath);
-                    try {
-                        file.setOffset(beginPos);
-                        std::vector<char> buf(utils::FileUtils::kBufMaxSize);
-                        // 支持偏移量
-                        while (remaining > 0) {
-                            // 读取文件
-                            std::size_t size = static_cast<std::size_t>(
-                                co_await file.read(
-                                    buf,
-                                    static_cast<uint32_t>(std::min(remaining, buf.size()))
-                                )
-                            );
-                            if (!size) [[unlikely]] {
-                                break;
-                            }
-                            co_await _io.fullySend({buf.data(), size});
-                            co_await _io.fullySend(CRLF);
-                            remaining -= size;
-                        }
-                    } catch (...) {
-                        // _io.template send 会抛异常
-                        ;
-                    }
-                    co_await file.close();
+                for (std::size_t i = 0; i < ranges.size(); ++i) {
+                    auto [beginPos, endPos] = ranges[i];
+                    co_await _io.fullySend(partHeads[i]); // 先发头
+                    co_await _sendFileRange(filePath, beginPos, endPos - beginPos + 1);
+                    co_await _io.fullySend(CRLF);
                 }
-                co_await _io.fullySend("--BOUNDARY_STRING--\r\n"sv);
+                co_await _io.fullySend(kEnd);
             }
         } else {
             // 普通的传输文件
@@ -624,27 +578,7 @@ public:
             addHeader("Content-Length"s, fileSizeStr);
             _buildResponseLineAndHeaders();
             co_await _io.fullySend(_sendBuf); // 先发一个头
-
-            utils::AsyncFile file{_io};
-            co_await file.open(filePath);
-            try {
-                std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
-                uint64_t remaining = fileSize;
-                while (remaining > 0) {
-                    std::size_t size = static_cast<std::size_t>(
-                        co_await file.read(buf)
-                    );
-                    if (!size) [[unlikely]] {
-                        break;
-                    }
-                    co_await _io.fullySend({buf.data(), size});
-                    remaining -= size;
-                }
-            } catch (...) {
-                // _io.template send 会抛异常
-                ;
-            }
-            co_await file.close();
+            co_await _sendFileRange(filePath, 0, fileSize);
         }
     }
 
@@ -828,6 +762,95 @@ private:
         }
     }
 
+    /**
+     * @brief [仅服务端] 解析单个范围
+     * @param range 如 `0-5` / `5-` / `-5`
+     * @param fileSize 文件大小
+     * @return [begin, end] (包含 end), 如果范围不合法则为 std::nullopt
+     */
+    static std::optional<std::pair<uint64_t, uint64_t>> _parserRange(
+        std::string_view range,
+        uint64_t fileSize
+    ) noexcept {
+        constexpr auto toNum = [](std::string_view sv, uint64_t& num) {
+            auto end = sv.data() + sv.size();
+            auto [ptr, ec] = std::from_chars(sv.data(), end, num);
+            if (ec == std::errc::result_out_of_range) {
+                num = std::numeric_limits<uint64_t>::max();
+                return ptr == end;
+            }
+            return ec == std::errc{} && ptr == end;
+        };
+        range = internal::trimOws(range);
+        auto pos = range.find('-');
+        if (!fileSize || pos == std::string_view::npos) [[unlikely]] {
+            return std::nullopt;
+        }
+        auto begin = range.substr(0, pos), end = range.substr(pos + 1);
+        uint64_t beginPos = 0, endPos = fileSize - 1;
+        if (begin.empty()) { // 最后的 end 个字节
+            uint64_t n = 0;
+            if (!toNum(end, n) || !n) [[unlikely]] {
+                return std::nullopt;
+            }
+            return std::pair{fileSize - std::min(n, fileSize), endPos};
+        }
+        if (!toNum(begin, beginPos)
+         || (!end.empty() && !toNum(end, endPos))
+         || beginPos > endPos
+         || beginPos >= fileSize
+        ) [[unlikely]] {
+            return std::nullopt;
+        }
+        return std::pair{beginPos, std::min(endPos, fileSize - 1)};
+    }
+
+    /**
+     * @brief [仅服务端] 生成 Content-Range 的值
+     */
+    static std::string _buildContentRange(
+        uint64_t beginPos,
+        uint64_t endPos,
+        std::string_view fileSizeStr
+    ) {
+        return std::format("bytes {}-{}/{}", beginPos, endPos, fileSizeStr);
+    }
+
+    /**
+     * @brief [仅服务端] 发送文件从 beginPos 开始的 remaining 个字节
+     * @throw 如果不能发送全部的内容则抛出异常 (响应不完整, 不能复用连接)
+     */
+    coroutine::Task<> _sendFileRange(std::string_view filePath, uint64_t beginPos, uint64_t remaining) {
+        utils::AsyncFile file{_io};
+        co_await file.open(filePath);
+        std::exception_ptr err;
+        try {
+            file.setOffset(beginPos);
+            std::vector<char> buf(std::min(remaining, utils::FileUtils::kBufMaxSize));
+            // 支持偏移量
+            while (remaining > 0) {
+                // 读取文件
+                std::size_t size = static_cast<std::size_t>(
+                    co_await file.read(
+                        buf,
+                        static_cast<uint32_t>(std::min(remaining, buf.size()))
+                    )
+                );
+                if (!size) [[unlikely]] {
+                    throw std::runtime_error{"The file is too short"};
+                }
+                co_await _io.fullySend({buf.data(), size});
+                remaining -= size;
+            }
+        } catch (...) {
+            err = std::current_exception(); // _io.template send 会抛异常
+        }
+        co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
+        }
+    }
+
     /**
      * @brief [仅服务端] 把 size 大小转换为 16 进制并以符合 ChunkedEncoding 的格式写入 _sendBuf
      * @param size 内容大小
-- 
2.43.0


From f68062b706bcbe187ca370e6f7c68c0482f7ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 34/56] fix: one failed accept (aborted connection, out of
 descriptors) stopped the server for everybody

---
 include/HXLibs/net/server/Acceptor.hpp | 28 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index 2cab310..274ec20 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -54,14 +54,26 @@ struct Acceptor {
     coroutine::Task<> start(std::atomic_bool const& isRun) {
         auto serverFd = co_await makeServerFd();
         for (;;) [[likely]] {
-            auto fd = HXLIBS_CHECK_EVENT_LOOP((
-                co_await _eventLoop.makeAioTask().prepAccept(
-                    serverFd,
-                    nullptr,    // 如果需要, 可以 getpeername(fd, ...) 获取的说...
-                    nullptr,
-                    0
-                )
-            ));
+            auto fd = co_await _eventLoop.makeAioTask().prepAccept(
+                serverFd,
+                nullptr,    // 如果需要, 可以 getpeername(fd, ...) 获取的说...
+                nullptr,
+                0
+            );
+#if defined(__linux__)
+            if (fd < 0 && fd != -EBADF && fd != -EINVAL && fd != -ENOTSOCK) [[unlikely]] {
+                // 只是这一个连接的错误, 或者暂时没有资源: 不能影响其他的连接
+                log::hxLog.error("accept 失败:", fd);
+                if (!isRun.load(std::memory_order_acquire)) [[unlikely]] {
+                    break;
+                }
+                if (fd != -ECONNABORTED && fd != -EINTR && fd != -EAGAIN) {
+                    co_await _eventLoop.makeTimer().sleepFor(std::chrono::milliseconds{10});
+                }
+                continue;
+            }
+#endif
+            HXLIBS_CHECK_EVENT_LOOP(fd);
             log::hxLog.debug("有新的连接:", fd);
             ConnectionHandler<IOType>::template
                 start<Timeout>(fd, isRun, _router, _eventLoop).detach();
-- 
2.43.0


From 1b19ab2a045e6e3cb303a0dcdd1a2da71e1d088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 35/56] fix: a query string took part in routing, the not-found
 handler ignored its interceptors' results, and wildcard remainders were cut
 at a wrong place

---
 include/HXLibs/net/router/Router.hpp | 30 +++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 3dcb9dd..0bfe03b 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -50,7 +50,7 @@ public:
         std::string_view path
     ) const {
         auto findLink = utils::StringUtil::split<std::string_view>(
-            path,
+            path.substr(0, path.find('?')), // 查询参数不参与路由
             "/",
             {method}
         );
@@ -69,18 +69,30 @@ public:
         std::function<coroutine::Task<>(
             Request &, Response &)>
             realEndpoint =
-                [this, endpoint = std::move(endpoint),
+                [this, endpoint = std::forward<Func>(endpoint),
                  ... interceptors = interceptors] (Request &req,
                                                    Response &res) mutable
             -> coroutine::Task<> {
             static_cast<void>(this);
             bool ok = true;
-            static_cast<void>((doBefore(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doBeforeAll(ok, req, res, interceptors...);
+#else
+            static_cast<void>(((
+                co_await doBefore(interceptors, ok, req, res)
+            ) && ...));
+#endif // !defined(_MSC_VER)
             if (ok) {
                 co_await endpoint(req, res);
             }
             ok = true;
-            static_cast<void>((doAfter(interceptors, ok, req, res) && ...));
+#if defined(_MSC_VER)
+            co_await doAfterAll(ok, req, res, interceptors...);
+#else
+            static_cast<void>(((
+                co_await doAfter(interceptors, ok, req, res)
+            ) && ...));
+#endif // !defined(_MSC_VER)
         };
         _routerTree.setNotFoundHandler(std::move(realEndpoint));
     }
@@ -169,7 +181,8 @@ private:
     void _addEndpoint(std::string_view path, Func endpoint, Interceptors&&... interceptors) {
         using namespace std::string_view_literals;
         auto isResolvePathVariable = path.find_first_of("{"sv) != std::string_view::npos;
-        auto isParseWildcardPath = path.find("/**"sv) != std::string_view::npos;
+        auto const pathSegments = utils::StringUtil::split<std::string_view>(path, "/");
+        auto isParseWildcardPath = !pathSegments.empty() && pathSegments.back() == "**"sv;
         std::function<coroutine::Task<>(Request &, Response &)> realEndpoint;
         switch (static_cast<int>(isResolvePathVariable) | (isParseWildcardPath << 1)) {
             case 0x0: // 不解析任何参数
@@ -239,7 +252,7 @@ private:
                 break;
             }
             case 0x2: {// 仅解析通配符
-                auto UWPIndex = path.find("/**"sv);
+                auto UWPIndex = RequestTemplateParsing::getUniversalWildcardPathBeginIndex(path);
                 realEndpoint = [this, endpoint = std::move(endpoint), UWPIndex,
                                 ... interceptors = interceptors](
                                    Request &req,
@@ -249,7 +262,10 @@ private:
                     bool ok = true;
                     auto pureRequesPath = req.getPureReqPath();
                     std::string_view pureRequesPathView = pureRequesPath;
-                    req._urlWildcardData = pureRequesPathView.substr(UWPIndex);
+                    auto pathSplitArr = utils::StringUtil::splitWithPos<std::string_view>(pureRequesPathView, "/");
+                    // 包含前面的 `/`
+                    req._urlWildcardData = pureRequesPathView.substr(
+                        std::max<std::size_t>(pathSplitArr[UWPIndex].first, 1) - 1);
 #if defined(_MSC_VER)
                     co_await doBeforeAll(ok, req, res, interceptors...);
 #else
-- 
2.43.0


From 21f90e92a7bdf1932cf78fb9c11d31330b72d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 36/56] fix: a task added while a worker was about to sleep
 could stay in the queue for ever, and the future of a void task was ready
 before the task ran

---
 include/HXLibs/container/ThreadPool.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index efd8c50..4030c07 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -133,8 +133,8 @@ struct ThreadPool {
         ]() mutable {
             try {
                 if constexpr (std::is_void_v<Res>) {
-                    ans->setData(NonVoidType<>{});
                     moveApply(std::move(func), std::move(argWap));
+                    ans->setData(NonVoidType<>{});
                 } else {
                     ans->setData(moveApply(std::move(func), std::move(argWap)));
                 }
@@ -142,7 +142,12 @@ struct ThreadPool {
                 ans->unhandledException();
             }
         };
-        _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        auto task = std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb));
+        {
+            // 必须在锁内投递, 否则工作线程可能在 [检查条件, 挂起) 之间错过通知
+            std::lock_guard _{_mtx};
+            _taskQueue.emplace(std::move(task));
+        }
         _cv.notify_one();
         return res;
     }
@@ -255,6 +260,7 @@ private:
                     }
                     ++_runCnt;
                     task->call(); // 执行任务
+                    task.reset(); // 不应在持有锁的时候析构任务
                     --_runCnt;
                 }
             });
-- 
2.43.0


From 796fa112f6628d9676ec0e29ca6c80d19f510137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 37/56] fix: destroying a thread pool could hang or abort, and
 a pool could shrink below its minimum or grow above its maximum

---
 include/HXLibs/container/ThreadPool.hpp | 79 +++++++++++++++++--------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 4030c07..5ed28f6 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -18,6 +18,7 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <thread>
 #include <chrono>
 #include <map>
@@ -49,14 +50,21 @@ struct ThreadPoolData {
 
 inline auto ThreadPoolDefaultStrategy = [](ThreadPoolData const& data) -> int {
     if (data.taskNum <= data.minThreadNum) {
-        if (data.sleepThreadNum > data.runThreadNum) {
-            return -static_cast<int>(std::max<std::size_t>(
-                static_cast<std::size_t>(data.sleepThreadNum * 0.25),
+        if (data.sleepThreadNum > data.runThreadNum
+            && data.nowThreadNum > data.minThreadNum
+        ) {
+            // 逐步缩容, 但是不得少于最小线程数
+            return -static_cast<int>(std::min<std::size_t>(
+                std::max<std::size_t>(
+                    1, static_cast<std::size_t>(data.sleepThreadNum * 0.25)),
                 data.nowThreadNum - data.minThreadNum
             ));
         }
         return 0;
     }
+    if (data.nowThreadNum >= data.maxThreadNum) {
+        return 0;
+    }
     return static_cast<int>(std::min<std::size_t>(
         data.maxThreadNum - data.nowThreadNum,
         static_cast<std::size_t>(
@@ -182,17 +190,18 @@ struct ThreadPool {
     ThreadPool& operator=(ThreadPool&&) = delete;
 
     ~ThreadPool() noexcept {
-        _isRun = false;
+        {
+            // 必须在锁内修改, 否则工作线程可能在 [检查条件, 挂起) 之间错过通知
+            std::lock_guard _{_mtx};
+            _isRun = false;
+        }
+        _cv.notify_all();
         if (_opThread.joinable()) {
             _opThread.join();
         }
-        _cv.notify_all();
         for (const auto& [_, t] : _workers) {
             t->join();
         }
-        if (!_delIdQueue.empty()) {
-            clearDelIdQueue();
-        }
     }
 private:
     /**
@@ -206,29 +215,43 @@ private:
             makeWorker(_minThreadNum - _workers.size());
         }
         while (_isRun) [[likely]] {
+            // 先回收已经退出的线程, 再统计
+            clearDelIdQueue();
+            uint32_t minNum = _minThreadNum.load();
+            uint32_t maxNum = std::max(minNum, _maxThreadNum.load());
             auto taskSize = static_cast<uint32_t>(_taskQueue.size());
-            auto runCnt = _runCnt.load();
-            auto workerSize = static_cast<uint32_t>(_workers.size());
-            if (int add = strategy(ThreadPoolData{
-                _minThreadNum,
-                _maxThreadNum,
+            // 不计将要退出的线程
+            auto workerSize = static_cast<uint32_t>(_workers.size()) - retiringCnt();
+            auto runCnt = std::min(_runCnt.load(), workerSize);
+            int64_t add = strategy(ThreadPoolData{
+                minNum,
+                maxNum,
                 taskSize,
                 workerSize,
                 runCnt,
                 workerSize - runCnt
-            })) {
-                if (add > 0) {
-                    makeWorker(static_cast<std::size_t>(add));
-                } else {
-                    add = -add;
-                    _delCnt = static_cast<uint32_t>(add);
-                    for (int i = 0; i < add; ++i) {
-                        _cv.notify_one();
-                    }
+            });
+            // 无论策略如何, 线程数都应该在 [min, max] 内
+            add = std::clamp<int64_t>(
+                add,
+                static_cast<int64_t>(minNum) - workerSize,
+                static_cast<int64_t>(maxNum) - workerSize
+            );
+            if (add > 0) {
+                // 优先撤回还没有执行的删除
+                while (add > 0 && tryDecrementIfPositive(_delCnt)) {
+                    --add;
                 }
-            }
-            if (_delIdQueue.size()) {
                 clearDelIdQueue();
+                makeWorker(static_cast<std::size_t>(add));
+            } else if (add < 0) {
+                {
+                    std::lock_guard _{_mtx};
+                    _delCnt += static_cast<uint32_t>(-add);
+                }
+                for (; add < 0; ++add) {
+                    _cv.notify_one();
+                }
             }
             std::this_thread::sleep_for(checkTimer);
         }
@@ -269,6 +292,14 @@ private:
         }
     }
 
+    /**
+     * @brief 将要退出的线程数: 还没有执行的删除 + 已经退出但没有回收的
+     */
+    uint32_t retiringCnt() {
+        std::lock_guard _{_mtx};
+        return _delCnt + static_cast<uint32_t>(_delIdQueue.size());
+    }
+
     /**
      * @brief 从待删除的队列中取出id, 并且从红黑树中删除
      */
-- 
2.43.0


From db55ddf2f8bf45139726104c8d103e5ba86e532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 38/56] fix: a continuation returning an error as a result
 passed on its predecessor's error (or crashed) instead

---
 include/HXLibs/container/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 5ed28f6..a1aca69 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -436,7 +436,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            std::rethrow_exception(funcRes.get().exception());
                         }
                     } else {            
                         // func 返回值是任意类型
@@ -455,7 +455,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            std::rethrow_exception(funcRes.get().exception());
                         }
                     } else {
                         // func 返回值是任意类型
-- 
2.43.0


From 33a17ab7b7ab387ed60bcbb67c29fe52302ba233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 39/56] fix: awaiting a worker's result resumed the coroutine
 on the worker's thread, raced with the event loop and could lose the wakeup

---
 include/HXLibs/container/FutureResult.hpp    | 40 +++++----
 include/HXLibs/coroutine/loop/EventLoop.hpp  | 54 +++++++++++-
 include/HXLibs/coroutine/loop/ThreadLoop.hpp | 92 +++++++++++++++-----
 3 files changed, 146 insertions(+), 40 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 4d1413c..a2f95e8 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -106,35 +106,43 @@ private:
     };
 
     struct _hx_Await {
+        // 由协程与工作线程共享: 协程可能在工作线程完成之前就已经被销毁
+        struct _hx_State : coroutine::ThreadLoop::Waiter {
+            Uninitialized<ArgTryType> _res;
+        };
+
         _hx_Await(FutureResult&& self)
-            : _res{}
-            , _coroutine{}
-        {
-            auto* loop = self._coEventLoop.get();
-            std::move(self).thenTry([this, raii = loop->makeTheradTask(), _loop = loop](auto t) mutable {
-                _res.set(std::move(t));
-                _coroutine.resume(); // 执行完毕后, self 已经被销毁了.
-                raii.notify();
-                _loop->makeNopAioTask();
-            });
-        }
+            : _self{std::move(self)}
+            , _state{std::make_shared<_hx_State>()}
+        {}
 
         _hx_Await& operator=(_hx_Await&&) noexcept = delete;
 
+        ~_hx_Await() noexcept {
+            _state->coroutine = nullptr;
+        }
+
         constexpr bool await_ready() const noexcept { return false; }
-        constexpr void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
-            _coroutine = coroutine;
+        void await_suspend(std::coroutine_handle<> coroutine) {
+            _state->coroutine = coroutine;
+            // 工作线程仅投递结果, 协程由事件循环恢复
+            std::move(_self).thenTry([
+                state = _state, task = _self._coEventLoop.get()->makeTheradTask()
+            ](auto t) mutable {
+                state->_res.set(std::move(t));
+                task.notify(std::move(state));
+            });
         }
         constexpr auto await_resume() const {
-            auto t = _res.move();
+            auto t = _state->_res.move();
             if (!t) [[unlikely]] {
                 t.rethrow();
             }
             return t.move();
         }
     private:
-        mutable container::Uninitialized<FutureResult<T>::ArgTryType> _res;
-        mutable std::coroutine_handle<> _coroutine;
+        FutureResult _self;
+        std::shared_ptr<_hx_State> _state;
     };
 public:
     using FutureResultType = _hx_Result;
diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index d5a316a..10c9239 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -24,6 +24,9 @@
 
 #if defined (_WIN32)
 #include <array>
+#elif defined (__linux__)
+#include <sys/eventfd.h>
+#include <unistd.h>
 #endif
 
 #include <HXLibs/platform/EventLoopApi.hpp>
@@ -109,6 +112,9 @@ struct IoUring {
 
     ~IoUring() noexcept {
         ::io_uring_queue_exit(&_ring);
+        if (_wakeFd >= 0) {
+            ::close(_wakeFd);
+        }
         while (_ops) {
             auto* op = std::exchange(_ops, _ops->next);
             op->prev = nullptr;
@@ -139,6 +145,27 @@ struct IoUring {
         }
     }
 
+    /**
+     * @brief 使得 wake() 可以唤醒 run() (一次)
+     */
+    void armWake() {
+        if (_wakeFd < 0 && (_wakeFd = ::eventfd(0, EFD_CLOEXEC)) < 0) [[unlikely]] {
+            throw std::system_error(errno, std::system_category());
+        }
+        auto* sqe = getSqe();
+        ::io_uring_prep_read(sqe, _wakeFd, &_wakeCnt, sizeof(_wakeCnt), 0);
+        sqe->user_data = 0U;
+    }
+
+    /**
+     * @brief 唤醒 run() (可在任意线程调用, 需要已经 armWake)
+     */
+    void wake() noexcept {
+        std::uint64_t one = 1;
+        while (::write(_wakeFd, &one, sizeof(one)) < 0 && errno == EINTR)
+            ;
+    }
+
     bool isRun() const noexcept {
         return _numSqesPending;
     }
@@ -174,7 +201,7 @@ struct IoUring {
             ++numGot;
             if (auto* op = reinterpret_cast<AioOp*>(cqe->user_data)) [[likely]] {
                 _done.emplace_back(op, cqe->res);
-            } // 否则仅仅是 prepNop 或者 取消操作
+            } // 否则仅仅是 prepNop, armWake 或者 取消操作
         }
 
         // 手动前进完成队列的头部 (相当于批量io_uring_cqe_seen)
@@ -233,6 +260,8 @@ private:
     ::io_uring _ring;
     std::size_t _numSqesPending; // 未完成的任务数
     AioOp* _ops{};              // 所有未完成的操作
+    int _wakeFd{-1};            // 用于唤醒的 eventfd
+    std::uint64_t _wakeCnt{};
     std::vector<std::pair<AioOp*, int>> _done;  // 本轮完成的操作及其结果
                                                 // 提取为成员, 避免频繁构造临时变量导致频繁扩容
 };
@@ -311,6 +340,9 @@ BOOL GetQueuedCompletionStatusEx(
 
         for (::ULONG i = 0; i < n; ++i) {
             auto ptr = arr[i];
+            if (!ptr.lpOverlapped) { // 仅仅是 wake
+                continue;
+            }
             auto task = std::unique_ptr<AioTask::_AioIocpData>{
                 reinterpret_cast<AioTask::_AioIocpData*>(ptr.lpOverlapped)
             };
@@ -347,6 +379,20 @@ BOOL GetQueuedCompletionStatusEx(
         }
     }
 
+    /**
+     * @brief 使得 wake() 可以唤醒 run() (一次)
+     */
+    void armWake() noexcept {
+        ++_taskCnt._numSqesPending;
+    }
+
+    /**
+     * @brief 唤醒 run() (可在任意线程调用, 需要已经 armWake)
+     */
+    void wake() noexcept {
+        ::PostQueuedCompletionStatus(_iocpHandle, 0, 0, nullptr);
+    }
+
     ~Iocp() noexcept {
         if (_iocpHandle) {
             ::CloseHandle(_iocpHandle);
@@ -482,12 +528,16 @@ struct EventLoop {
      */
     void run() {
         for (;;) {
+            _theradLoop.run();
             auto timeout = _timerLoop.run();
+            if (_theradLoop.prepare(_eventDrive)) {
+                timeout = std::chrono::system_clock::duration::zero();
+            }
             if (_eventDrive.isRun()) [[likely]] {
                 _eventDrive.run(timeout);
             } else if (timeout) {
                 std::this_thread::sleep_for(*timeout);
-            } else if (!_theradLoop.isRun()) [[unlikely]] {
+            } else [[unlikely]] {
                 break;
             }
         }
diff --git a/include/HXLibs/coroutine/loop/ThreadLoop.hpp b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
index c2f1cb9..0f63488 100644
--- a/include/HXLibs/coroutine/loop/ThreadLoop.hpp
+++ b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
@@ -19,14 +19,26 @@
  */
 
 #include <mutex>
-#include <condition_variable>
+#include <memory>
+#include <vector>
+#include <utility>
+#include <coroutine>
 
 namespace HX::coroutine {
 
 /**
  * @brief 线程循环 (实际上仅是控制器)
+ * @note 工作线程只投递结果; 协程总是在事件循环所在的线程被恢复
  */
 struct ThreadLoop {
+    /**
+     * @brief 等待工作线程的协程
+     * @note coroutine 仅可由事件循环所在的线程访问; 等待者被析构时, 应该将其置空
+     */
+    struct Waiter {
+        std::coroutine_handle<> coroutine{};
+    };
+
 private:
     struct _hx_ThreadLoopController {
         _hx_ThreadLoopController(ThreadLoop& self) noexcept
@@ -46,10 +58,12 @@ private:
             return *this;
         }
 
-        void notify() noexcept {
-            std::unique_lock _{_self._mtx};
-            --_self._threadTaskCnt;
-            _self.notify();
+        /**
+         * @brief 任务完成 (任意线程调用)
+         * @param waiter 需要恢复的协程
+         */
+        void notify(std::shared_ptr<Waiter> waiter = {}) {
+            _self.notify(std::move(waiter));
         }
     private:
         ThreadLoop& _self;  
@@ -57,35 +71,69 @@ private:
 public:
     ThreadLoop()
         : _mtx{}
-        , _cv{}
         , _threadTaskCnt{0}
+        , _ready{}
+        , _drive{}
+        , _wake{}
     {}
 
-    bool isRun() noexcept {
-        std::size_t cnt = 0;
-        std::unique_lock lock{_mtx};
-        if (_threadTaskCnt == 0) {
-            return false;
+    auto makeThreadTask() noexcept {
+        return _hx_ThreadLoopController{*this};
+    }
+
+    /**
+     * @brief 恢复任务已经完成的协程
+     */
+    void run() {
+        std::vector<std::shared_ptr<Waiter>> ready;
+        {
+            std::unique_lock _{_mtx};
+            ready.swap(_ready);
+        }
+        for (auto& waiter : ready) {
+            // 注意: 恢复其中一个协程, 可能导致后面的等待者析构
+            if (waiter->coroutine) {
+                std::exchange(waiter->coroutine, {}).resume();
+            }
         }
-        cnt = _threadTaskCnt;
-        _cv.wait(lock, [&] {
-            return cnt > _threadTaskCnt;
-        });
-        return true;
     }
 
-    auto makeThreadTask() noexcept {
-        return _hx_ThreadLoopController{*this};
+    /**
+     * @brief 事件循环阻塞之前调用: 如果还有任务没有完成, 则使其完成时可以唤醒 drive
+     * @return true 已经有任务完成, 不应该阻塞
+     */
+    template <typename Drive>
+    bool prepare(Drive& drive) {
+        std::unique_lock _{_mtx};
+        if (!_ready.empty()) {
+            return true;
+        }
+        if (_threadTaskCnt && !_wake) {
+            drive.armWake();
+            _drive = &drive;
+            _wake = [](void* ptr) { static_cast<Drive*>(ptr)->wake(); };
+        }
+        return false;
     }
 
 private:
-    void notify() noexcept {
-        _cv.notify_one();
+    void notify(std::shared_ptr<Waiter> waiter) {
+        // 解锁后, 事件循环可能已经析构
+        std::unique_lock _{_mtx};
+        --_threadTaskCnt;
+        if (waiter) {
+            _ready.push_back(std::move(waiter));
+        }
+        if (_wake) {
+            std::exchange(_wake, nullptr)(_drive);
+        }
     }
 
     mutable std::mutex _mtx;
-    std::condition_variable _cv;
     std::size_t _threadTaskCnt;
+    std::vector<std::shared_ptr<Waiter>> _ready;
+    void* _drive;
+    void (*_wake)(void*);
 };
 
-} // namespace HX::coroutine
\ No newline at end of file
+} // namespace HX::coroutine
-- 
2.43.0


From c9f4ccaf8b2e1402ce5e49721bd934b7db232fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 40/56] fix: the client pairs every response with its request,
 reports broken connections and does not leak them

---
 include/HXLibs/net/client/HttpClient.hpp      | 340 ++++++++----------
 .../HXLibs/net/protocol/http/BodyDecoder.hpp  |  50 ++-
 include/HXLibs/net/protocol/http/Request.hpp  |  15 +-
 include/HXLibs/net/protocol/http/Response.hpp |  55 ++-
 .../HXLibs/net/server/ConnectionHandler.hpp   |  22 +-
 include/HXLibs/net/socket/IO.hpp              |  10 +-
 6 files changed, 273 insertions(+), 219 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index be7f313..63c833a 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -153,43 +153,16 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
+            if (needConnect(url)) {
                 co_await makeSocket(url);
             }
-            container::Try<> err{};
             Request req{_io.get()};
             req.template setReqLine<Method>(UrlParse::extractPath(url));
             preprocessHeaders(url, contentType, req);
             req.addHeaders(std::move(headers));
-            try {
-                co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
-                }
-                co_await res.template parseBody<Timeout>();
-                co_return res.makeResponseData();
-            } catch (...) {
-                ;
-            }
-            // 二次尝试
-            try {
-                co_await makeSocket(url);
-                // 再次发送
+            co_return co_await exchange<Method, Timeout>(url, req, [&]() -> coroutine::Task<> {
                 co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
-                }
-                co_return res.makeResponseData();
-            } catch (...) {
-                err.setException(std::current_exception());
-            }
-            // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
-            err.rethrow();
-            co_return {};
+            });
         };
         if (_isUniqueEventLoop) {
             co_return _eventLoop->trySync(task());
@@ -346,7 +319,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
+            if (needConnect(url)) {
                 co_await makeSocket(url);
             }
             co_return co_await sendReq<Method>(
@@ -373,9 +346,6 @@ public:
      */
     coroutine::Task<container::Try<>> coConnect(std::string_view url) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await coClose();
-            }
             co_await makeSocket(url);
         };
         if (_isUniqueEventLoop) {
@@ -494,46 +464,40 @@ public:
     ) {
         container::Try<Res> res;
         auto taskObj = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await makeSocket(url);
-            }
-            container::Uninitialized<WebSocketClient<IOType>> ws;
-            try {
-                ws.set(co_await WebSocketFactory<IOType>::template connect<Timeout>(
-                    url, _io.get(), headers
-                ));
-            } catch (...) {
-                res.setException(std::current_exception());
-            }
-            if (!ws.isAvailable()) [[unlikely]] {
-                // 之前的连接断开了, 再次尝试连接
-                if (_isAutoReconnect) [[likely]] {
-                    // 重新建立连接
-                    co_await makeSocket(url);
-                    try {
-                        ws.set(co_await WebSocketFactory<IOType>::template connect<Timeout>(url, _io.get(), headers));
-                        res.reset();
-                    } catch(...) {
-                        res.setException(std::current_exception());
-                    }
-                }
-            }
-            if (ws.isAvailable()) [[likely]] {
+            for (bool isRetry = false; ; isRetry = true) {
+                container::Uninitialized<WebSocketClient<IOType>> ws;
                 try {
-                    if constexpr (!std::is_void_v<Res>) {
-                        res.setVal(co_await std::forward<Func>(func)(ws.move()));
-                    } else {
-                        co_await std::forward<Func>(func)(ws.move());
-                        res.setVal(container::NonVoidType<>{});
+                    // 如果之前的连接断开了, 再次尝试连接
+                    if (isRetry || needConnect(url)) {
+                        co_await makeSocket(url);
                     }
+                    ws.set(co_await WebSocketFactory<IOType>::template connect<Timeout>(
+                        url, _io.get(), headers
+                    ));
+                    res.reset();
                 } catch (...) {
-                    // 如果内部没有捕获异常, 就重抛给外部
                     res.setException(std::current_exception());
                 }
+                if (ws.isAvailable()) [[likely]] {
+                    try {
+                        if constexpr (!std::is_void_v<Res>) {
+                            res.setVal(co_await std::forward<Func>(func)(ws.move()));
+                        } else {
+                            co_await std::forward<Func>(func)(ws.move());
+                            res.setVal(container::NonVoidType<>{});
+                        }
+                    } catch (...) {
+                        // 如果内部没有捕获异常, 就重抛给外部
+                        res.setException(std::current_exception());
+                    }
+                    isRetry = true;
+                }
+                // 断开连接
+                co_await coClose();
+                if (isRetry || !_isAutoReconnect) {
+                    co_return;
+                }
             }
-            // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
         };
         auto taskMain = taskObj();
         if (_isUniqueEventLoop) {
@@ -561,7 +525,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
+            if (needConnect(url)) {
                 co_await makeSocket(url);
             }
             Request req{_io.get()};
@@ -576,37 +540,28 @@ public:
             }
             std::exception_ptr exceptionPtr{};
             try {
-                bool isOkFd = true;
-                try {
-                    co_await req.template sendHttpReq<Timeout>();
-                } catch (...) {
-                    // e: 大概率是 断开的管道, 直接重连
-                    isOkFd = false;
-                }
-                Response res{_io.get()};
-                do {
+                std::optional<Response> res;
+                for (bool isRetry = false; ; isRetry = true) {
+                    exceptionPtr = nullptr;
                     try {
-                        // 可能会抛异常...
-                        if (isOkFd && co_await res.template parserResHead<Timeout>()) {
-                            break;
+                        if (isRetry) [[unlikely]] {
+                            co_await makeSocket(url);
                         }
-                    } catch (...) {
-                        ;
-                    }
-                    // 读取超时
-                    if (_isAutoReconnect) [[likely]] {
-                        // 重新建立连接
-                        co_await makeSocket(url);
-                        // 重新发送一次请求
                         co_await req.template sendHttpReq<Timeout>();
-                        // 再次解析请求
-                        if (co_await res.template parserResHead<Timeout>()) [[likely]] {
+                        res.emplace(_io.get());
+                        if (co_await res->template parserResHead<Timeout>()) [[likely]] {
                             break;
                         }
+                        throw std::runtime_error{"Recv Timed Out"};
+                    } catch (...) {
+                        exceptionPtr = std::current_exception();
                     }
-                    [[unlikely]] throw std::runtime_error{"Send Timed Out"};
-                } while (false);
-                for (auto seeLoop = res.template parserSseStrem<Timeout>(); ;) {
+                    co_await coClose();
+                    if (isRetry || !_isAutoReconnect) {
+                        std::rethrow_exception(exceptionPtr);
+                    }
+                }
+                for (auto seeLoop = res->template parserSseStrem<Timeout>(); ;) {
                     co_await std::forward<Func>(func)(co_await seeLoop);
                 }
             } catch (...) {
@@ -615,8 +570,7 @@ public:
 
             log::hxLog.error("超时断开 SSE"); // debug
 
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
             std::rethrow_exception(exceptionPtr);
         };
         if (_isUniqueEventLoop) {
@@ -643,59 +597,121 @@ private:
      * @return coroutine::Task<>
      */
     coroutine::Task<> makeSocket(std::string_view url) {
+        co_await coClose(); // 之前的连接不再使用
         AddressResolver resolver;
         UrlInfoExtractor parser{_options.proxy.get().size() ? _options.proxy.get() : url};
         auto entry = resolver.resolve(parser.getHostname(), parser.getService());
+        SocketFdType fd = HXLIBS_CHECK_EVENT_LOOP((
+            co_await _eventLoop->makeAioTask().prepSocket(
+                entry._curr->ai_family,
+                entry._curr->ai_socktype,
+                entry._curr->ai_protocol,
+                0
+            )
+        ));
+        if (_io.isAvailable()) {
+            co_await _io.get().bindNewFd(fd);
+        } else {
+            _io.set(fd, *_eventLoop);
+        }
+        _cliFd = fd;
+        std::exception_ptr exceptionPtr{};
         try {
-            _cliFd = HXLIBS_CHECK_EVENT_LOOP((
-                co_await _eventLoop->makeAioTask().prepSocket(
-                    entry._curr->ai_family,
-                    entry._curr->ai_socktype,
-                    entry._curr->ai_protocol,
-                    0
-                )
-            ));
-            try {
-                auto sockaddr = entry.getAddress();
+            auto sockaddr = entry.getAddress();
+            HXLIBS_CHECK_EVENT_LOOP((
                 co_await _eventLoop->makeAioTask().prepConnect(
                     _cliFd,
                     sockaddr._addr,
                     sockaddr._addrlen
-                );
-                auto isInit = _io.isAvailable();
-                if (!isInit) {
-                    _io.set(_cliFd, *_eventLoop);
-                } else {
-                    co_await _io.get().bindNewFd(_cliFd);
-                }
-                if constexpr (!std::is_same_v<Proxy, NoneProxy>) {
-                    // 初始化代理
-                    if (_options.proxy.get().size()) {
-                        Proxy proxy{_io.get()};
-                        co_await proxy.connect(_options.proxy.get(), url);
-                    }
+                )
+            ));
+            if constexpr (!std::is_same_v<Proxy, NoneProxy>) {
+                // 初始化代理
+                if (_options.proxy.get().size()) {
+                    Proxy proxy{_io.get()};
+                    co_await proxy.connect(_options.proxy.get(), url);
                 }
+            }
 #ifdef HXLIBS_ENABLE_SSL
-                if constexpr (std::is_same_v<IOType, HttpsIO>) {
-                    if (!isInit) {
-                        _io.get().initSslBio(SslContext::SslType::Client);
-                    } else {
-                        _io.get().resetSslBio();
-                    }
-                    // 初始化连接 (Https 握手)
-                    co_await _io.get().template initSsl<decltype(10_s)>(false);
-                }
+            if constexpr (std::is_same_v<IOType, HttpsIO>) {
+                _io.get().initSslBio(SslContext::SslType::Client);
+                // 初始化连接 (Https 握手)
+                co_await _io.get().template initSsl<decltype(10_s)>(false);
+            }
 #endif // !HXLIBS_ENABLE_SSL
-                co_return;
+            _origin = getOrigin(url);
+            co_return;
+        } catch (...) {
+            log::hxLog.error("连接失败");
+            exceptionPtr = std::current_exception();
+        }
+        // 总之得关闭
+        co_await coClose();
+        std::rethrow_exception(exceptionPtr);
+    }
+
+    /**
+     * @brief 获取 url 对应的服务端 (域名 + 端口)
+     */
+    static std::string getOrigin(std::string_view url) {
+        UrlInfoExtractor parser{url};
+        return std::string{parser.getHostname()} + ':' + std::string{parser.getService()};
+    }
+
+    /**
+     * @brief 判断请求该 url 是否需要重新建立连接
+     * @param url url 或者 path (已经连接的情况下)
+     */
+    bool needConnect(std::string_view url) const {
+        if (needConnect()) {
+            return true;
+        }
+        try {
+            return getOrigin(url) != _origin;
+        } catch (...) {
+            return false; // 仅 path
+        }
+    }
+
+    /**
+     * @brief 发送请求并且接收响应; 如果失败, 则 (自动重连时) 重新建立连接, 再次尝试
+     * @tparam Method 请求类型
+     * @param url 请求 url
+     * @param req 请求
+     * @param send 发送请求的协程
+     * @return coroutine::Task<ResponseData>
+     */
+    template <HttpMethod Method, typename Timeout, typename Send>
+    coroutine::Task<ResponseData> exchange(std::string const& url, Request& req, Send send) {
+        for (bool isRetry = false; ; isRetry = true) {
+            std::exception_ptr exceptionPtr{};
+            try {
+                if (isRetry) [[unlikely]] {
+                    // 重新建立连接
+                    co_await makeSocket(url);
+                }
+                co_await send();
+                // 不能复用之前的响应, 它可能已经解析了一部分
+                Response res{_io.get()};
+                if (!co_await res.setHead(Method == HttpMethod::HEAD).template parserRes<Timeout>()) [[unlikely]] {
+                    throw std::runtime_error{"Recv Timed Out"};
+                }
+                if (auto it = req.getHeaders().find(CONNECTION_SV);
+                    !res.isKeepAlive()
+                    || (it != req.getHeaders().end() && it->second == "close")
+                ) {
+                    co_await coClose();
+                }
+                co_return res.makeResponseData();
             } catch (...) {
-                log::hxLog.error("连接失败");
+                exceptionPtr = std::current_exception();
+            }
+            log::hxLog.error("解析出错"); // debug
+            co_await coClose();
+            if (isRetry || !_isAutoReconnect) {
+                std::rethrow_exception(exceptionPtr);
             }
-        } catch (std::exception const& e) {
-            log::hxLog.error("创建套接字失败:", e.what());
         }
-        // 总之得关闭
-        co_await _eventLoop->makeAioTask().prepClose(_cliFd);
-        _cliFd = kInvalidSocket;
     }
 
     /**
@@ -728,54 +744,9 @@ private:
             // @todo 请求体还需要支持一些格式!
             req.setBody(std::forward<Str>(body));
         }
-        std::exception_ptr exceptionPtr{};
-        try {
-            bool isOkFd = true;
-            try {
-                co_await req.template sendHttpReq<Timeout>();
-            } catch (...) {
-                // e: 大概率是 断开的管道, 直接重连
-                isOkFd = false;
-            }
-            Response res{_io.get()};
-            do {
-                try {
-                    // 可能会抛异常...
-                    if (isOkFd && co_await res.template parserRes<Timeout>()) {
-                        break;
-                    }
-                } catch (...) {
-                    ;
-                }
-                // 读取超时
-                if (_isAutoReconnect) [[likely]] {
-                    // 重新建立连接
-                    co_await makeSocket(url);
-                    // 重新发送一次请求
-                    co_await req.template sendHttpReq<Timeout>();
-                    // 再次解析请求
-                    if (co_await res.template parserRes<Timeout>()) [[likely]] {
-                        break;
-                    }
-                }
-                [[unlikely]] throw std::runtime_error{"Send Timed Out"};
-            } while (false);
-            if (auto it = req.getHeaders().find("Connection");
-                it != req.getHeaders().end() && it->second == "close"
-            ) {
-                co_await _io.get().close();
-                _cliFd = kInvalidSocket;
-            }
-            co_return res.makeResponseData();
-        } catch (...) {
-            exceptionPtr = std::current_exception();
-        }
-
-        log::hxLog.error("解析出错"); // debug
-
-        co_await _io.get().close();
-        _cliFd = kInvalidSocket;
-        std::rethrow_exception(exceptionPtr);
+        co_return co_await exchange<Method, Timeout>(url, req, [&]() -> coroutine::Task<> {
+            co_await req.template sendHttpReq<Timeout>();
+        });
     }
 
     /**
@@ -809,6 +780,9 @@ private:
     // 上一次解析的 Host
     std::string _host;
 
+    // 当前连接的服务端
+    std::string _origin;
+
     // 是否自动重连
     bool _isAutoReconnect;
 
diff --git a/include/HXLibs/net/protocol/http/BodyDecoder.hpp b/include/HXLibs/net/protocol/http/BodyDecoder.hpp
index 54c61ca..2788aa8 100644
--- a/include/HXLibs/net/protocol/http/BodyDecoder.hpp
+++ b/include/HXLibs/net/protocol/http/BodyDecoder.hpp
@@ -18,8 +18,10 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <utility>
 
 #include <HXLibs/net/protocol/http/Http.hpp>
+#include <HXLibs/utils/StringUtils.hpp>
 
 namespace HX::net::internal {
 
@@ -69,6 +71,27 @@ inline void parserHeaderLine(
     ).first;
 }
 
+/**
+ * @brief 是否复用连接: `HTTP/1.0` 需要明确写 keep-alive; 此外, 只要不是明确写 close 的就复用
+ * @param version 协议版本
+ * @param headers 请求头 (或者响应头)
+ */
+inline bool isKeepAlive(std::string_view version, HeaderHashMap const& headers) {
+    using namespace std::string_view_literals;
+    constexpr TransparentCaseInsensitiveEqual eq{};
+    bool res = version != "HTTP/1.0"sv;
+    if (auto it = headers.find(CONNECTION_SV); it != headers.end()) {
+        for (auto option : utils::StringUtil::split<std::string_view>(it->second, ","sv)) {
+            option = trimOws(option);
+            if (eq(option, "close"sv)) {
+                return false;
+            }
+            res |= eq(option, "keep-alive"sv);
+        }
+    }
+    return res;
+}
+
 /**
  * @brief Http 消息体解码器 (content-length / chunked), 与数据如何分片无关
  */
@@ -80,6 +103,7 @@ class BodyDecoder {
         ChunkData,  // 分块: 剩余 _remaining 字节
         ChunkEnd,   // 分块: 等待分块数据后面的 `\r\n`
         Trailer,    // 分块: 等待尾部字段或者空行
+        UntilClose, // 直到连接断开 (仅响应)
         Done        // 已经读完
     };
 public:
@@ -94,8 +118,9 @@ public:
 
     /**
      * @brief 依据头部确定消息体的格式 (仅第一次调用有效)
+     * @param isUntilClose 没有声明长度时, 消息体是否直到连接断开才结束
      */
-    void begin(HeaderHashMap const& headers) {
+    void begin(HeaderHashMap const& headers, bool isUntilClose = false) {
         if (_state != State::None) {
             return;
         }
@@ -108,8 +133,27 @@ public:
             _remaining = toSize<10>(it->second);
             _state = _remaining ? State::Length : State::Done;
         } else {
-            _state = State::Done;
+            _state = isUntilClose ? State::UntilClose : State::Done;
+        }
+    }
+
+    /**
+     * @brief 没有消息体
+     */
+    void beginEmpty() noexcept {
+        _state = State::Done;
+    }
+
+    /**
+     * @brief 连接断开
+     * @return true 消息体以此结束
+     */
+    bool endOfStream() noexcept {
+        if (_state != State::UntilClose) {
+            return false;
         }
+        _state = State::Done;
+        return true;
     }
 
     /**
@@ -130,6 +174,8 @@ public:
                     }
                     return res;
                 }
+                case State::UntilClose:
+                    return std::exchange(buf, {});
                 case State::ChunkSize: {
                     auto pos = buf.find(CRLF);
                     if (pos == std::string_view::npos) {
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8899253..38fb37d 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -172,17 +172,22 @@ public:
             buf.resize(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            _buildToChunkedEncoding<true>(size, sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-            for (;;) {
+            if (!size) [[unlikely]] { // 空文件: 0\r\n\r\n
+                _buildToChunkedEncoding<true, true>(0, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+            } else {
+                _buildToChunkedEncoding<true>(size, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
+            }
+            while (size) {
+                size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
                     _buildToChunkedEncoding<false, true>(0, sendBuf);
                     co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                     break;
                 }
-                size = static_cast<std::size_t>(co_await file.read(buf));
                 _buildToChunkedEncoding(size, sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index d9ff0df..ca91532 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -173,8 +173,38 @@ public:
     template <typename Timeout = decltype(30_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserRes() {
-        co_return co_await parserResHead<Timeout>()
-               && co_await parseBody<Timeout>();
+        for (;;) {
+            if (!co_await parserResHead<Timeout>()) {
+                co_return false;
+            }
+            if (auto code = getStatusCode(); !code.starts_with('1') || code == "101") {
+                break;
+            }
+            // 临时响应 (如 100 Continue), 后面才是真正的响应
+            _statusLine.clear();
+            _responseHeaders.clear();
+            _responseHeadersIt = _responseHeaders.end();
+            _completeResponseHeader = false;
+        }
+        co_return co_await parseBody<Timeout>();
+    }
+
+    /**
+     * @brief 设置是否为 HEAD 请求的响应 (没有响应体)
+     */
+    HttpResponse& setHead(bool isHead) noexcept {
+        _isHead = isHead;
+        return *this;
+    }
+
+    /**
+     * @brief 响应解析完毕之后, 连接是否还可以继续使用
+     */
+    bool isKeepAlive() const {
+        if (_isClose || _recvBuf.size()) { // 以断开连接作为结束, 或者还有不属于该响应的数据
+            return false;
+        }
+        return internal::isKeepAlive(getProtocolVersion(), _responseHeaders);
     }
 
     /**
@@ -227,7 +257,8 @@ public:
             );
             if (recvN == 0) [[unlikely]] {
                 // 连接断开
-                co_return false;
+                _isClose = true;
+                co_return _bodyDecoder.endOfStream();
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
         }
@@ -717,8 +748,8 @@ private:
     IOType& _io;
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
-    bool _isHead = false;                           // [仅服务端] 是否为 HEAD 请求的响应 (没有响应体)
-    bool _isClose = false;                          // [仅服务端] 发送后是否需要断开连接
+    bool _isHead = false;                           // 是否为 HEAD 请求的响应 (没有响应体)
+    bool _isClose = false;                          // 发送 (接收) 后是否需要断开连接
 
     template <typename>
     friend struct ConnectionHandler;
@@ -915,7 +946,11 @@ private:
                     _statusLine = utils::StringUtil::split<std::string>(
                         buf.substr(0, pos), " "sv
                     );
-                    if (_statusLine.size() < 2) [[unlikely]] {
+                    if (_statusLine.size() < 2
+                        || !_statusLine[ResponseLineDataType::ProtocolVersion].starts_with("HTTP/"sv)
+                        || _statusLine[ResponseLineDataType::StatusCode].size() != 3
+                        || _statusLine[ResponseLineDataType::StatusCode].find_first_not_of("0123456789"sv) != std::string::npos
+                    ) [[unlikely]] {
                         throw std::runtime_error{"Http response: bad status line"};
                     }
                     if (_statusLine.size() == 2) { // 没有状态信息
@@ -985,7 +1020,13 @@ private:
      */
     std::size_t _parserReqBody() {
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        _bodyDecoder.begin(_responseHeaders);
+        if (auto code = getStatusCode();
+            _isHead || code.starts_with('1') || code == "204" || code == "304"
+        ) {
+            _bodyDecoder.beginEmpty(); // 没有响应体
+        } else {
+            _bodyDecoder.begin(_responseHeaders, true);
+        }
         for (auto data = _bodyDecoder.next(buf); data.size(); data = _bodyDecoder.next(buf)) {
             _body.append(data);
         }
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 9c43965..7cab330 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -65,7 +65,7 @@ struct ConnectionHandler {
                     )(req, res);
                     // 是否复用连接 (keep-alive)
                     if (res._isClose
-                        || !isKeepAlive(req)
+                        || !internal::isKeepAlive(req.getProtocolVersion(), req.getHeaders())
                         || !isRun.load(std::memory_order_acquire)
                     ) [[unlikely]] {
                         break;
@@ -88,26 +88,6 @@ struct ConnectionHandler {
         co_await io.close();
         co_return;
     }
-
-private:
-    /**
-     * @brief 请求是否要求复用连接: `HTTP/1.0` 需要明确写 keep-alive; 此外, 只要不是明确写 close 的就复用
-     */
-    static bool isKeepAlive(HttpRequest<IOType> const& req) {
-        using namespace std::string_view_literals;
-        constexpr internal::TransparentCaseInsensitiveEqual eq{};
-        bool res = req.getProtocolVersion() != "HTTP/1.0"sv;
-        if (auto it = req.getHeaders().find(CONNECTION_SV); it != req.getHeaders().end()) {
-            for (auto option : utils::StringUtil::split<std::string_view>(it->second, ","sv)) {
-                option = internal::trimOws(option);
-                if (eq(option, "close"sv)) {
-                    return false;
-                }
-                res |= eq(option, "keep-alive"sv);
-            }
-        }
-        return res;
-    }
 };
 
 } // namespace HX::net
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 244d8cd..cbc9aff 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -90,6 +90,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"Connection is Broken"}; // 连接断开
+            }
             buf = buf.subspan(sent);
         }
     }
@@ -240,7 +243,9 @@ public:
      * @param fd 
      */
     coroutine::Task<> bindNewFd(SocketFdType fd) noexcept {
-        co_await close();
+        if (_fd != kInvalidSocket) {
+            co_await close();
+        }
         _fd = fd;
     }
 
@@ -337,6 +342,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"Connection is Broken"}; // 连接断开
+            }
             buf = buf.subspan(sent);
         }
     }
-- 
2.43.0


From c01a24abf0fcfc897c495060478fa9b189158af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 41/56] fix: WebSocket frames are parsed from a buffer: any
 segmentation, control frames between fragments, silence, closing; the
 handshake keeps frames behind it and compares its headers as RFC 6455 says

---
 .../net/protocol/websocket/WebSocket.hpp      | 488 +++++++++---------
 1 file changed, 250 insertions(+), 238 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f77fcbc..dc97719 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -30,7 +30,13 @@
 #include <HXLibs/reflection/json/JsonRead.hpp>
 #include <HXLibs/reflection/json/JsonWrite.hpp>
 
+#include <algorithm>
+#include <array>
+#include <chrono>
+#include <limits>
+#include <optional>
 #include <random>
+#include <utility>
 
 namespace HX::net {
 
@@ -250,33 +256,33 @@ public:
     template <bool TimeoutIsError = false, typename Timeout = DefaultPPTimeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<WebSocketPacket> recv(OpCode recvType, OpCode alternative = OpCode::Unknown) {
-        for (;;) {
-            auto res = co_await recvPacket<Timeout>();
+        for (bool isPing = false; ;) {
+            auto res = isPing
+                ? co_await recvPacket<DefaultPPTimeout>()
+                : co_await recvPacket<Timeout>();
             if (!res) [[unlikely]] {
-                if constexpr (TimeoutIsError) {
-                    // 读取超时
+                // 读取超时: 如果 ping 之后依旧没有任何回应, 就是异常了!
+                if (TimeoutIsError || isPing) {
                     throw std::runtime_error{"Read Timeout"};
-                } else {
-                    // 第一次超时就 ping, 然后尝试读取 pong
-                    co_await ping();
-                    // 如果 pong 超时, 就是异常了!
-                    auto res = co_await recv<true>(OpCode::Pong, recvType);
-                    if (res.opCode == recvType) [[unlikely]] {
-                        // 特别的: 如果此时 之前 recv 的数据到了, 那么继续把这次的 OpCode::Pong 接收
-                        co_await recv<true>(OpCode::Pong);
-                        co_return res;
-                    }
-                    // 没有超时就继续等待数据然后读取
-                    continue;
                 }
-            } else if ((*res).opCode == OpCode::Ping) {
+                // 第一次超时就 ping, 然后继续读取
+                co_await ping();
+                isPing = true;
+                continue;
+            }
+            isPing = false; // 对方还活着
+            auto opCode = res->opCode;
+            if (opCode == OpCode::Ping) {
                 co_await pong(std::move(*res).content);
                 continue;
-            } else if ((*res).opCode == OpCode::Close) [[unlikely]] {
+            } else if (opCode == OpCode::Close) [[unlikely]] {
                 co_await resClose(std::move(*res).content);
                 // 对方主动关闭连接: 安全关闭
                 throw std::runtime_error{"Connection Closed OK: 1000"};
-            } else if ((*res).opCode != recvType && (*res).opCode != alternative) [[unlikely]] {
+            } else if (opCode != recvType && opCode != alternative) [[unlikely]] {
+                if (opCode == OpCode::Pong) {
+                    continue; // 是之前 ping 的回应, 或者是对方主动发送的, 均无需处理
+                }
                 // 读取的不是期望的类型
                 throw std::runtime_error{"The type read is not the expected type"};
             }
@@ -352,16 +358,18 @@ public:
         // 发送断线协商
         co_await send(OpCode::Close);
 
-        // 等待
-        auto res = co_await recvPacket<DefaultPPTimeout>();
-
-        if (!res || res->opCode != OpCode::Close) [[unlikely]] {
-            // 超时 或者 协议非期望
-            co_return ; // 那我假设已经完成了
+        // 等待对方的回应; 在此之前的数据都不再需要
+        try {
+            auto const end = std::chrono::steady_clock::now() + std::chrono::seconds{20};
+            do {
+                auto res = co_await recvPacket<DefaultPPTimeout>();
+                if (!res || res->opCode == OpCode::Close) {
+                    break; // 超时则假设已经完成了
+                }
+            } while (std::chrono::steady_clock::now() < end);
+        } catch (std::exception const&) {
+            ; // 对方已经断开连接, 或者协议非期望: 假设已经完成了
         }
-
-        // 再次发送, 确定断线
-        co_await send(OpCode::Close);
     }
 
     /**
@@ -388,88 +396,56 @@ public:
 private:
     IOType& _io;
 
-    // 缓存之前多读取的内容, 特别的, 原本头部的数据是在尾部! 应该使用 back() + pop_back() 进行遍历
+    // 已经读取, 但是还没有解析的内容: [_begin, _end)
     std::vector<char> _recvBuf;
-
-    // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
+    std::size_t _begin = 0;
+    std::size_t _end = _recvBuf.size();
+
+    // 正在解析的帧
+    struct Frame {
+        OpCode opCode = OpCode::Unknown;
+        bool fin = false;
+        std::array<uint8_t, 4> mask{};
+        std::size_t maskIdx = 0;
+        std::size_t remaining = 0;  // 内容还剩下多少字节
+        std::string content{};      // 内容 (控制帧)
+    };
+    std::optional<Frame> _frame{};
+
+    // 正在接收的消息 (可能有多个分片)
+    WebSocketPacket _message{OpCode::Unknown};
 
     /**
-     * @brief 读取
+     * @brief 读取数据到 _recvBuf
      * @tparam Timeout 超时时间
-     * @tparam Res
-     * > 
+     * @return false 超时
+     * @throw 连接断开
      */
-    template <typename Timeout, typename Res = 
-#if defined(__linux__)
-    coroutine::WhenAnyReturnType<
-        coroutine::AioTask,
-        decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))
-    >
-#elif defined(_WIN32)
-    container::UninitializedNonVoidVariant<int, void> // 只能固定返回值
-#else
-    // 暂时不支持该操作系统
-    #error "Unsupported operating system"
-#endif // !defined(__linux__)
-    >
+    template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<Res> recvLinkTimeout(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                Res res;
-                res.template emplace<0>(static_cast<
-                    coroutine::AwaiterReturnType<coroutine::AioTask>
-                >(buf.size()));
-                co_return res;
-            }
-            // @todo 此处偷懒了, 因为也没有使用到 get<0>() 的实际的值, 所以没有影响
-            // 但是不保证日后!
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(size));
-        } else {
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf);
+    coroutine::Task<bool> recvMore() {
+        std::copy(_recvBuf.begin() + static_cast<std::ptrdiff_t>(_begin),
+                  _recvBuf.begin() + static_cast<std::ptrdiff_t>(_end),
+                  _recvBuf.begin());
+        _end -= _begin;
+        _begin = 0;
+        if (_recvBuf.size() < IO::kBufMaxSize) {
+            _recvBuf.resize(IO::kBufMaxSize);
         }
-    }
-
-    /**
-     * @brief 直接将二进制写入到类型T中, 注意需要区分大小端
-     * @warning 默认是网络序(大端), 如果需要使用, 注意转换
-     * @tparam T 
-     * @return coroutine::Task<T> 
-     */
-    template <typename T>
-    coroutine::Task<T> recvStruct() {
-        T res;
-        co_await fullyRecv(std::span<char>{
-            reinterpret_cast<char*>(&res), sizeof(T)
-        });
-        co_return res;
-    }
-    
-
-    /**
-     * @brief 完全读取
-     * @param buf 
-     * @return coroutine::Task<> 
-     */
-    coroutine::Task<> fullyRecv(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                co_return;
-            }
-            co_await _io.fullyRecv(buf.subspan(size));
-        } else {
-            co_await _io.fullyRecv(buf);
+        auto res = co_await _io.template recvLinkTimeout<Timeout>(
+            std::span<char>{_recvBuf}.subspan(_end)
+        );
+        if (res.index() == 1) [[unlikely]] {
+            co_return false;
+        }
+        auto n = HXLIBS_CHECK_EVENT_LOOP(
+            (res.template get<0, exception::ExceptionMode::Nothrow>())
+        );
+        if (n == 0) [[unlikely]] {
+            throw std::runtime_error{"Connection is Broken"};
         }
+        _end += static_cast<std::size_t>(n);
+        co_return true;
     }
 
     // 响应 pong (无需暴露, 库内部使用即可)
@@ -493,8 +469,21 @@ private:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<std::optional<WebSocketPacket>> recvPacket() {
-        WebSocketPacket packet;
-        uint8_t head[2];
+        for (;;) {
+            if (auto packet = parserPacket()) {
+                co_return packet;
+            }
+            if (!co_await recvMore<Timeout>()) [[unlikely]] {
+                co_return std::nullopt; // 超时: 已经读取的内容依旧保留
+            }
+        }
+    }
+
+    /**
+     * @brief 从 _recvBuf 中解析出一个完整的消息, 或者控制帧
+     * @return std::nullopt 需要读取更多的数据
+     */
+    std::optional<WebSocketPacket> parserPacket() {
 /*
    0               1               2               3
    0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1
@@ -532,113 +521,122 @@ private:
   以及, 如果分片 (fin = false), 那么它的第一个包是 (Test / Binary), 之后的只能是 Cont
   注意, 分片的数据只能是 Test / Binary
 */
-        // 记录是否为最后一个分片
-        bool fin;
-
-        // 记录第一帧数据内容
-        OpCode firstOpCode{OpCode::Unknown};
-        do {
-            auto res = co_await recvLinkTimeout<Timeout>(
-                std::span<char>{reinterpret_cast<char*>(head), 2});
-            if (res.index() == 1 
-             || res.template get<0, exception::ExceptionMode::Nothrow>() <= 0
-            ) [[unlikely]] {
-                // 超时 或者 出错
-                co_return std::nullopt;
+        while (_frame || parserFrameHead()) {
+            // 解析内容
+            auto& frame = *_frame;
+            bool isControl = static_cast<uint8_t>(frame.opCode) >= 8;
+            auto& content = isControl ? frame.content : _message.content;
+            std::size_t n = std::min(frame.remaining, _end - _begin);
+            std::size_t pos = content.size();
+            content.append(_recvBuf.data() + _begin, n);
+            if constexpr (IsServer) {
+                for (; pos != content.size(); ++pos) {
+                    content[pos] = static_cast<char>(
+                        static_cast<uint8_t>(content[pos]) ^ frame.mask[frame.maskIdx++ % 4]);
+                }
             }
-            uint8_t head0 = head[0];
-            uint8_t head1 = head[1];
-
-            // 解析 FIN, 为 0 标识当前为最后一个包
-            fin = (head0 >> 7);
-
-            // 解析 OpCode
-            packet.opCode = static_cast<OpCode>(head0 & 0x0F);
-            
-            // 求 MASK 如果非协议要求, 则是协议错误, 应该断开连接
-            bool mask = head1 & 0x80;
-            if (mask ^ IsServer) [[unlikely]] {
-                // 协议错误
-                throw std::runtime_error{"Protocol Error"};
+            _begin += n;
+            frame.remaining -= n;
+            if (frame.remaining) {
+                break;
             }
-
-            uint8_t payloadLen8 = head1 & 0x7F;
-            if (static_cast<uint8_t>(packet.opCode) <= 2) {
-                // 合法的数据帧
-                if (firstOpCode == OpCode::Unknown) [[likely]] {
-                    // 第一包必然是这里
-                    firstOpCode = packet.opCode;
-                } else if (packet.opCode != OpCode::Cont) [[unlikely]] {
-                    // 分片情况下
-                    throw std::runtime_error{"Fragmentation Error: OpCode != Cont"};
-                }
-            } else if (static_cast<uint8_t>(packet.opCode) >= 8 
-                    && static_cast<uint8_t>(packet.opCode) <= 10
-            ) {
-                // 控制帧, 必须满足:
-                if (!fin) [[unlikely]] {
-                    throw std::runtime_error{
-                        "Control frame cannot be fragmented"};
-                }
-                if (payloadLen8 >= 126) [[unlikely]] {
-                    throw std::runtime_error{
-                        "Control frame too big"};
-                }
-                firstOpCode = packet.opCode;
-            } else [[unlikely]] {
-                // 其他保留值, 非法
-                throw std::runtime_error{"Unknown OpCode"};
+            // 该帧已经完整
+            bool fin = frame.fin;
+            if (isControl) {
+                WebSocketPacket res{frame.opCode, std::move(frame.content)};
+                _frame.reset();
+                return res;
             }
+            _frame.reset();
+            if (fin) {
+                return std::exchange(_message, WebSocketPacket{OpCode::Unknown});
+            }
+        }
+        return std::nullopt;
+    }
 
-            // 解析包的长度
-            std::size_t payloadLen;
-            if (payloadLen8 == 0x7E) {
-                uint16_t payloadLen16 = co_await recvStruct<uint16_t>();
-                payloadLen16 = utils::ByteUtils::byteswapIfLittle(payloadLen16);
-                payloadLen = static_cast<std::size_t>(payloadLen16);
-            } else if (payloadLen8 == 0x7F) {
-                uint64_t payloadLen64 = co_await recvStruct<uint64_t>();
-                payloadLen64 = utils::ByteUtils::byteswapIfLittle(payloadLen64);
-                if constexpr (sizeof(uint64_t) > sizeof(std::size_t)) {
-                    if (payloadLen64 > std::numeric_limits<std::size_t>::max()) {
-                        throw std::runtime_error{
-                            "payloadLen64 > std::numeric_limits<size_t>::max()"};
-                    }
-                }
-                payloadLen = static_cast<std::size_t>(payloadLen64);
-            } else {
-                payloadLen = static_cast<std::size_t>(payloadLen8);
+    /**
+     * @brief 解析帧头, 写入到 _frame
+     * @return false 需要读取更多的数据
+     */
+    bool parserFrameHead() {
+        auto const* head = reinterpret_cast<uint8_t const*>(_recvBuf.data()) + _begin;
+        std::size_t const size = _end - _begin;
+        if (size < 2) {
+            return false;
+        }
+        uint8_t const payloadLen8 = head[1] & 0x7F;
+        std::size_t const lenSize = payloadLen8 == 0x7E ? 2 : payloadLen8 == 0x7F ? 8 : 0;
+        std::size_t const headSize = 2 + lenSize + (IsServer ? 4 : 0);
+
+        Frame frame;
+        // 解析 FIN, 为 1 标识当前为最后一个包
+        frame.fin = head[0] >> 7;
+
+        // 没有协商任何扩展, RSV 必须为 0
+        if (head[0] & 0x70) [[unlikely]] {
+            throw std::runtime_error{"Protocol Error: RSV != 0"};
+        }
+
+        // 解析 OpCode
+        frame.opCode = static_cast<OpCode>(head[0] & 0x0F);
+
+        // 求 MASK 如果非协议要求, 则是协议错误, 应该断开连接
+        bool mask = head[1] & 0x80;
+        if (mask ^ IsServer) [[unlikely]] {
+            throw std::runtime_error{"Protocol Error"};
+        }
+
+        if (static_cast<uint8_t>(frame.opCode) <= 2) {
+            // 合法的数据帧: 分片情况下, 第一帧之后的必须是 Cont
+            if ((frame.opCode == OpCode::Cont) != (_message.opCode != OpCode::Unknown)) [[unlikely]] {
+                throw std::runtime_error{"Fragmentation Error"};
+            }
+        } else if (static_cast<uint8_t>(frame.opCode) >= 8
+                && static_cast<uint8_t>(frame.opCode) <= 10
+        ) {
+            // 控制帧 (可以在分片之间), 必须满足:
+            if (!frame.fin) [[unlikely]] {
+                throw std::runtime_error{
+                    "Control frame cannot be fragmented"};
             }
+            if (payloadLen8 >= 126) [[unlikely]] {
+                throw std::runtime_error{
+                    "Control frame too big"};
+            }
+        } else [[unlikely]] {
+            // 其他保留值, 非法
+            throw std::runtime_error{"Unknown OpCode"};
+        }
 
-            if constexpr (IsServer) {
-                // 获取掩码
-                uint8_t maskKeyArr[4];
-                co_await fullyRecv(std::span<char>{
-                    reinterpret_cast<char*>(maskKeyArr),
-                    4
-                });
-    
-                // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
-    
-                const std::size_t len = tmp.size();
-                auto* p = reinterpret_cast<uint8_t*>(tmp.data());
-                for (std::size_t i = 0; i != len; ++i) {
-                    p[i] ^= maskKeyArr[i % 4];
-                }
-                packet.content += std::move(tmp);
-            } else {
-                // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
-                packet.content += std::move(tmp);
+        if (size < headSize) {
+            return false;
+        }
+
+        // 解析包的长度
+        uint64_t payloadLen = payloadLen8;
+        if (lenSize) {
+            payloadLen = 0;
+            for (std::size_t i = 0; i < lenSize; ++i) {
+                payloadLen = payloadLen << 8 | head[2 + i];
             }
-        } while (!fin);
-        packet.opCode = firstOpCode;
-        co_return packet;
+        }
+        // 最高位必须为 0
+        if (payloadLen >> 63 || payloadLen > std::numeric_limits<std::size_t>::max()) [[unlikely]] {
+            throw std::runtime_error{"Protocol Error: payload is too long"};
+        }
+        frame.remaining = static_cast<std::size_t>(payloadLen);
+
+        if constexpr (IsServer) {
+            // 获取掩码
+            std::copy(head + headSize - 4, head + headSize, frame.mask.begin());
+        }
+        if (frame.opCode == OpCode::Text || frame.opCode == OpCode::Binary) {
+            _message.opCode = frame.opCode;
+        }
+        _begin += headSize;
+        _frame = std::move(frame);
+        return true;
     }
 
     /**
@@ -768,25 +766,30 @@ public:
                         .sendRes();
             throw std::runtime_error{"The client is missing the origin field"};
         }
-        if (auto it = headMap.find("upgrade");
-            it == headMap.end() || it->second != "websocket"
-        ) [[unlikely]] {
+        if (!hasOption(headMap, "upgrade", "websocket")) [[unlikely]] {
             // 创建 WebSocket 连接失败
             co_await _res.setResLine(Status::CODE_400)
                         .sendRes();
             throw std::runtime_error{"Failed to create a websocket connection"};
         }
-        if (auto it = headMap.find("connection");
+        if (!hasOption(headMap, "connection", "upgrade")) [[unlikely]] {
             // 可能是 "keep-alive, Upgrade" 这种情况
-            it == headMap.end() || it->second.find("Upgrade") == std::string::npos
-        ) [[unlikely]] {
             co_await _res.setResLine(Status::CODE_416)
                         .sendRes();
             throw std::runtime_error{"Upgrade Required"};
         }
+        if (!hasOption(headMap, "sec-websocket-version", "13")) [[unlikely]] {
+            // 仅支持 RFC 6455
+            co_await _res.setResLine(Status::CODE_426)
+                        .addHeader("Sec-WebSocket-Version", "13")
+                        .sendRes();
+            throw std::runtime_error{"Unsupported websocket version"};
+        }
         auto wsKey = headMap.find("sec-websocket-key");
-        if (wsKey == headMap.end()) [[unlikely]] {
+        if (wsKey == headMap.end() || wsKey->second.empty()) [[unlikely]] {
             // 在标头中找不到 sec-websocket-key
+            co_await _res.setResLine(Status::CODE_400)
+                        .sendRes();
             throw std::runtime_error{"Not Find sec-websocket-key in headers"};
         }
 
@@ -797,17 +800,14 @@ public:
                                internal::webSocketSecretHash(wsKey->second))
                     .sendRes();
 
-        co_return {_res._io, [&]{
-            // 缓存迁移
-            std::vector<char> buf;
-            std::size_t n = _res._recvBuf.size();
-            buf.resize(n);
-            auto* data = _res._recvBuf.data();
-            for (std::size_t i = 0, j = n - 1; i < n; ++i, --j) {
-                buf[i] = data[j];
-            }
-            return buf;
-        }()};
+        // 升级之后就不再是 Http 连接了
+        _res._isClose = true;
+
+        // 缓存迁移: 客户端可能已经发送了数据
+        auto& buf = _req._recvBuf;
+        std::vector<char> data{buf.data(), buf.data() + buf.size()};
+        buf.clear();
+        co_return {_res._io, std::move(data)};
     }
 
     /**
@@ -848,16 +848,12 @@ public:
         }
         // 校验
         auto const& headMap = res.getHeaders();
-        if (auto it = headMap.find("connection");
+        if (!hasOption(headMap, "connection", "upgrade")) [[unlikely]] {
             // 仅要求包含 Upgrade 即可
-            it == headMap.end() || it->second.find("Upgrade") == std::string::npos
-        ) [[unlikely]] {
             throw std::runtime_error{
                 "Failed to create a websocket connection (Connection header invalid)"};
         }
-        if (auto it = headMap.find("upgrade");
-            it == headMap.end() || it->second != "websocket"
-        ) [[unlikely]] {
+        if (!hasOption(headMap, "upgrade", "websocket")) [[unlikely]] {
             throw std::runtime_error{
                 "Failed to create a websocket connection (Upgrade header invalid)"};
         }
@@ -868,17 +864,33 @@ public:
                 "Failed to create a websocket connection (Accept hash mismatch)"};
         }
         // ws连接 成功
-        co_return {io, [&]{
-            // 缓存迁移
-            std::vector<char> buf;
-            std::size_t n = res._recvBuf.size();
-            buf.resize(n);
-            auto* data = res._recvBuf.data();
-            for (std::size_t i = 0, j = n - 1; i < n; ++i, --j) {
-                buf[i] = data[j];
+        auto const& buf = res._recvBuf;
+        co_return {
+            io,
+            std::vector<char>{buf.data(), buf.data() + buf.size()},
+            std::random_device{}()
+        };
+    }
+
+private:
+    /**
+     * @brief 判断头部字段的值 (由逗号分割) 是否含有某个选项, 不区分大小写
+     */
+    static bool hasOption(
+        HeaderHashMap const& headMap,
+        std::string_view key,
+        std::string_view option
+    ) {
+        auto it = headMap.find(key);
+        if (it == headMap.end()) {
+            return false;
+        }
+        for (auto val : utils::StringUtil::split<std::string_view>(it->second, std::string_view{","})) {
+            if (internal::TransparentCaseInsensitiveEqual{}(internal::trimOws(val), option)) {
+                return true;
             }
-            return buf;
-        }(), std::random_device{}()};
+        }
+        return false;
     }
 };
 
-- 
2.43.0


From 276ea6f5a352dcf75a80c965aec34e49dbb1ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 42/56] fix: the WebSocket upgrade request carries a Host
 header

---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index dc97719..268472e 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -826,6 +826,7 @@ public:
         Request req{io};
         auto key = internal::randomBase64();
         req.template setReqLine<WS>(UrlParse::extractPath(url))
+           .addHeaders("Host", std::string{UrlParse::extractHostPort(url)})
            .addHeaders("Origin", UrlParse::extractWsOrigin(url))
            .addHeaders("Connection", "Upgrade")
            .addHeaders("Upgrade", "websocket")
-- 
2.43.0


From 74989f43325311c137059f8e0c5fb6789f564fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 43/56] fix: SOCKS5 authentication never read its answer, the
 reply length was taken from the request, credentials could overflow their
 length byte, and HTTP proxies were asked for the wrong thing

---
 .../HXLibs/net/protocol/proxy/HttpProxy.hpp   | 26 ++++----
 .../HXLibs/net/protocol/proxy/Socks5Proxy.hpp | 66 ++++++++++++++++---
 2 files changed, 71 insertions(+), 21 deletions(-)

diff --git a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
index ebc3d24..adea892 100644
--- a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
@@ -22,6 +22,7 @@
 #include <HXLibs/net/protocol/http/Request.hpp>
 #include <HXLibs/net/protocol/http/Response.hpp>
 #include <HXLibs/net/protocol/url/UrlParse.hpp>
+#include <HXLibs/net/protocol/codec/Base64.hpp>
 
 namespace HX::net {
 
@@ -34,17 +35,20 @@ public:
         UrlInfoExtractor parser(targetUrl);
         HttpRequest<HttpIO> req{_io};
         
-        if (parser.getService() == "https") {
-            req.setReqLine<HttpMethod::CONNECT>(
-                std::string{parser.getHostname()}
-                + ":"
-                + std::to_string(UrlParse::getProtocolPort(parser.getService()))
-            );
-        } else {
-            req.setReqLine<HttpMethod::GET>(url);
-        }
+        // 无论目标是什么协议, 之后都直接和目标服务器通信, 因此需要隧道
+        std::string target{parser.getHostname()};
+        target += ':';
+        target += std::to_string(UrlParse::getProtocolPort(parser.getService()));
+        req.setReqLine<HttpMethod::CONNECT>(target);
 
-        req.tryAddHeaders("Host", UrlParse::extractDomainName(std::string{url}));
+        req.tryAddHeaders("Host", target);
+        if (auto user = UrlParse::extractUser(url)) {
+            std::string account{user->account};
+            account += ':';
+            account += user->password;
+            req.tryAddHeaders("Proxy-Authorization", "Basic " + base64Encode({
+                reinterpret_cast<uint8_t*>(account.data()), account.size()}));
+        }
         req.tryAddHeaders("Connection", "keep-alive");
         req.tryAddHeaders("User-Agent", "HXLibs/1.0");
 
@@ -55,7 +59,7 @@ public:
         if (!co_await res.parserResHead<decltype(3_s)>()) {
             throw std::runtime_error{"Response parser error"};
         }
-        if (res.getStatusCode() != "200") {
+        if (auto code = res.getStatusCode(); !code.starts_with('2')) {
             throw std::runtime_error("HTTP Proxy connect failed");
         }
     }
diff --git a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
index 036a998..cfbce84 100644
--- a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
@@ -30,13 +30,42 @@ public:
 
     coroutine::Task<> connect(std::string_view url, std::string_view targetUrl) {
         auto user = UrlParse::extractUser(url);
+        UrlInfoExtractor parser(targetUrl);
+        // 它们的长度在报文中仅占一个字节
+        if (parser.getHostname().size() > 255
+            || (user && (user->account.size() > 255 || user->password.size() > 255))
+        ) [[unlikely]] {
+            throw std::invalid_argument("socks5: Hostname, username or password is too long");
+        }
         co_await handshake(user.has_value());
         if (user) {
             co_await subNegotiation(user->account, user->password);
         }
-        co_await socks5ConnectRequest(targetUrl);
+        co_await socks5ConnectRequest(parser);
     }
 private:
+    /**
+     * @brief 读取代理的应答, 直到读满 buf
+     * @throw 断开或者超时
+     */
+    coroutine::Task<> recvReply(std::span<char> buf) {
+        using namespace HX::utils;
+        while (!buf.empty()) {
+            auto res = co_await _io.template recvLinkTimeout<decltype(10_s)>(buf);
+            if (res.index() == 1) [[unlikely]] {
+                throw std::runtime_error{"socks5: Recv Timed Out"};
+            }
+            auto recvN = static_cast<std::size_t>(
+                HXLIBS_CHECK_EVENT_LOOP(
+                    (res.template get<0, exception::ExceptionMode::Nothrow>())
+            ));
+            if (recvN == 0) [[unlikely]] {
+                throw std::runtime_error{"socks5: Connection is Broken"};
+            }
+            buf = buf.subspan(recvN);
+        }
+    }
+
     /**
      * @brief 子协商
      * @param username 
@@ -57,8 +86,8 @@ private:
         co_await _io.fullySend(authRequest);
 
         char authResponse[2];
-        co_await _io.fullySend(authResponse);
-        if (authResponse[1] != 0x00) {
+        co_await recvReply(authResponse);
+        if (authResponse[0] != 0x01 || authResponse[1] != 0x00) {
             throw std::invalid_argument("sub-negotiation: REP is " + std::to_string(authResponse[1]));
         }
     }
@@ -78,7 +107,7 @@ private:
 
         // 解析服务端响应
         char handshakeResponse[2];
-        co_await _io.fullyRecv(handshakeResponse);
+        co_await recvReply(handshakeResponse);
         if (handshakeResponse[0] != 0x05                           // 协议版本 (需要一致)
          || handshakeResponse[1] != (authentication ? 0x02 : 0x00) // 服务端选择的可用方法
         ) [[unlikely]] {
@@ -97,10 +126,10 @@ private:
 
     /**
      * @brief 发送代理请求
-     * @param targetUrl 通过代理访问的目标服务器 URL
+     * @param parser 通过代理访问的目标服务器
      * @throw 失败
      */
-    coroutine::Task<> socks5ConnectRequest(std::string_view targetUrl) {
+    coroutine::Task<> socks5ConnectRequest(UrlInfoExtractor const& parser) {
         std::string connectRequest;
         connectRequest += static_cast<char>(0x05); // 协议版本号 Version 5
 
@@ -133,7 +162,6 @@ private:
          *      - 域名长度 (一个unsigned char)
          *      - 域名 (unsigned char []) (可变长度)
          */
-        UrlInfoExtractor parser(targetUrl);
         connectRequest += static_cast<char>(parser.getHostname().size());
         connectRequest += parser.getHostname();
         connectRequest.resize(connectRequest.size() + 2);
@@ -141,7 +169,6 @@ private:
             ::htons(UrlParse::getProtocolPort(parser.getService()));
 
         co_await _io.fullySend(connectRequest);
-        co_await _io.fullyRecv(connectRequest);
 
         /**
          * @brief 
@@ -156,7 +183,9 @@ private:
          *                                                16 (IPv6)	
          * BND.PORT	    绑定端口	    unsigned short	2
          */
-        if (connectRequest[1] != 0x00) [[unlikely]] { // 失败
+        char head[4];
+        co_await recvReply(head);
+        if (head[0] != 0x05 || head[1] != 0x00) [[unlikely]] { // 失败
             /**
              * @brief 服务器响应消息中的 REP 字段如果不为 0x00, 则表示请求失. 不同值的具体含义如下:
              * 0x00 成功
@@ -169,8 +198,25 @@ private:
              * 0x07 不支持的命令
              * 0x08 不支持的地址类型
              */
-            throw std::invalid_argument("Connect Request: REP is " + std::to_string(connectRequest[1]));
+            throw std::invalid_argument("Connect Request: REP is " + std::to_string(head[1]));
+        }
+
+        // 读取 BND.ADDR 和 BND.PORT; 应答的长度由 ATYP 决定, 与请求的长度无关
+        std::string bindAddr;
+        switch (head[3]) {
+        case 0x01: bindAddr.resize(4); break;
+        case 0x04: bindAddr.resize(16); break;
+        case 0x03: {
+            char len[1];
+            co_await recvReply(len);
+            bindAddr.resize(static_cast<unsigned char>(len[0]));
+            break;
+        }
+        default:
+            throw std::invalid_argument("Connect Request: ATYP is " + std::to_string(head[3]));
         }
+        bindAddr.resize(bindAddr.size() + 2);
+        co_await recvReply(bindAddr);
     }
 };
 
-- 
2.43.0


From 30936d1fb82d2b18e23af928537382712c3332c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 44/56] fix: TLS connections looped for ever when the peer
 closed or failed, lost what did not fit the buffer, were disturbed by
 failures of other connections, and verified certificates without regard to
 the host

---
 include/HXLibs/net/client/HttpClient.hpp    |  5 +-
 include/HXLibs/net/protocol/https/Https.hpp | 30 ++++++--
 include/HXLibs/net/socket/IO.hpp            | 83 ++++++++++++++-------
 3 files changed, 83 insertions(+), 35 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 63c833a..7dcc81a 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -634,7 +634,10 @@ private:
             }
 #ifdef HXLIBS_ENABLE_SSL
             if constexpr (std::is_same_v<IOType, HttpsIO>) {
-                _io.get().initSslBio(SslContext::SslType::Client);
+                _io.get().initSslBio(
+                    SslContext::SslType::Client,
+                    std::string{UrlInfoExtractor{url}.getHostname()}
+                );
                 // 初始化连接 (Https 握手)
                 co_await _io.get().template initSsl<decltype(10_s)>(false);
             }
diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index 5deb3d5..ebeefe7 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -26,6 +26,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <openssl/x509_vfy.h>
 
 #include <HXLibs/exception/SslException.hpp>
 #include <HXLibs/utils/FileUtils.hpp>
@@ -166,6 +167,20 @@ public:
         SSL_set_connect_state(_ssl);
     }
 
+    /**
+     * @brief 设置对方的主机名 (域名 或 ip), 用于 SNI 与校验证书 (如果启用了校验)
+     */
+    void setHost(std::string const& host) {
+        if (X509_VERIFY_PARAM_set1_ip_asc(SSL_get0_param(_ssl), host.c_str()) == 1) {
+            return; // SNI 不能是 ip
+        }
+        if (SSL_set_tlsext_host_name(_ssl, host.c_str()) != 1
+            || SSL_set1_host(_ssl, host.c_str()) != 1
+        ) [[unlikely]] {
+            throw std::runtime_error("set host failed");
+        }
+    }
+
     void reset() noexcept {
         BIO_reset(_sslBio);
         BIO_reset(_netBio);
@@ -189,7 +204,8 @@ public:
      */
     void writeCiphertext(std::span<const char> cipher) {
         // 注意! cipher.size() 应该 >= 0
-        if (BIO_write(_netBio, cipher.data(), static_cast<int>(cipher.size())) <= 0) [[unlikely]] {
+        int size = static_cast<int>(cipher.size());
+        if (BIO_write(_netBio, cipher.data(), size) != size) [[unlikely]] {
             throw std::runtime_error("BIO_write failed");
         }
     }
@@ -200,6 +216,7 @@ public:
      * @return int 读取的明文的字节数
      */
     int readPlaintext(std::span<char> buf) {
+        ERR_clear_error(); // 线程内可能有其他连接遗留的错误
         int n = SSL_read(_ssl, buf.data(), static_cast<int>(buf.size()));
         if (n > 0) [[likely]] {
             return n;
@@ -209,7 +226,7 @@ public:
             if (err == SSL_ERROR_ZERO_RETURN) [[likely]] {
                 return 0; // SSL连接正常关闭
             }
-            throw std::runtime_error("SSL_write failed");
+            throw std::runtime_error("SSL_read failed");
         }
         return -1; // 等待更多数据
     }
@@ -222,12 +239,10 @@ public:
         if (!isInitFinished()) [[unlikely]] {
             throw std::runtime_error("Cannot write plaintext before handshake finished");
         }
+        ERR_clear_error(); // 线程内可能有其他连接遗留的错误
         int res = SSL_write(_ssl, buf.data(), static_cast<int>(buf.size()));
-        if (res <= 0) [[unlikely]] {
-            int err = SSL_get_error(_ssl, res);
-            if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) [[unlikely]] {
-                throw std::runtime_error("SSL_write failed");
-            }
+        if (res != static_cast<int>(buf.size())) [[unlikely]] {
+            throw std::runtime_error("SSL_write failed");
         }
     }
 
@@ -250,6 +265,7 @@ public:
 
     // 驱动握手状态机, true 为握手成功
     bool driveHandshake() {
+        ERR_clear_error(); // 线程内可能有其他连接遗留的错误
         int res = SSL_do_handshake(_ssl);
         if (res == 1) [[likely]] {
             return true;
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index cbc9aff..b29582d 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -294,6 +294,9 @@ private:
 
 class HttpsIO : public HttpIO {
     using Base = HttpIO;
+
+    // 一次加密/解密的最大字节数, 得保证 SslBio 的缓冲区装得下
+    inline constexpr static std::size_t kSslBlockSize = 1 << 16; // 64kb
 public:
     using Base::Base;
 
@@ -301,29 +304,40 @@ public:
         _ssl.set(type);
     }
 
+    /**
+     * @param host 对方的主机名
+     */
+    void initSslBio(SslContext::SslType type, std::string const& host) {
+        initSslBio(type);
+        _ssl.get().setHost(host);
+    }
+
     void resetSslBio() {
         _ssl.get().reset();
     }
 
     coroutine::Task<int> recv(std::span<char> buf) {
-        int res = 0;
-        for (;;) {
-            if (res > 0) {
-                // 解密
-                _ssl.get().writeCiphertext({
-                    buf.data(),
-                    static_cast<std::size_t>(res)
-                });
-            }
+        buf = buf.subspan(0, std::min(buf.size(), kSslBlockSize));
+        while (!buf.empty()) {
             // 获取明文
-            res = _ssl.get().readPlaintext(buf);
+            int res = _ssl.get().readPlaintext(buf);
             if (res >= 0) {
                 co_return res;
             }
+            // 解析的过程中可能需要应答对方
+            co_await Base::fullySend(_ssl.get().readCiphertext());
             // 继续尝试读取密文
             res = co_await Base::recv(buf);
+            if (res <= 0) [[unlikely]] {
+                co_return res; // 连接断开 或者 出错
+            }
+            // 解密
+            _ssl.get().writeCiphertext({
+                buf.data(),
+                static_cast<std::size_t>(res)
+            });
         }
-        [[unlikely]] co_return res;
+        co_return 0;
     }
 
     coroutine::Task<int> recv(std::span<char> buf, std::size_t n) {
@@ -370,8 +384,12 @@ public:
      * @return coroutine::Task<> 
      */
     coroutine::Task<> fullySend(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::fullySend(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto block = buf.subspan(0, std::min(buf.size(), kSslBlockSize));
+            _ssl.get().writePlaintext(block);
+            co_await Base::fullySend(_ssl.get().readCiphertext());
+            buf = buf.subspan(block.size());
+        }
     }
 
     /**
@@ -408,22 +426,29 @@ public:
     #error "Unsupported operating system"
 #endif // !defined(__linux__)
         res.template emplace<0>(0);
-        while (res.index() == 0) [[likely]] {
-            auto& ans = get<0, exception::ExceptionMode::Nothrow>(res);
-            if (ans > 0) {
-                // 解密
-                _ssl.get().writeCiphertext({
-                    buf.data(),
-                    static_cast<std::size_t>(ans)
-                });
-            }
+        buf = buf.subspan(0, std::min(buf.size(), kSslBlockSize));
+        while (!buf.empty()) {
             // 获取明文
-            ans = _ssl.get().readPlaintext(buf);
-            if (ans >= 0) {
-                co_return res;
+            if (int ans = _ssl.get().readPlaintext(buf); ans >= 0) {
+                res.template emplace<0>(ans);
+                break;
             }
+            // 解析的过程中可能需要应答对方
+            co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
             // 继续尝试读取密文
             res = co_await Base::recvLinkTimeout<Timeout>(buf);
+            if (res.index() == 1) [[unlikely]] {
+                break; // 超时
+            }
+            auto ans = get<0, exception::ExceptionMode::Nothrow>(res);
+            if (ans <= 0) [[unlikely]] {
+                break; // 连接断开 或者 出错
+            }
+            // 解密
+            _ssl.get().writeCiphertext({
+                buf.data(),
+                static_cast<std::size_t>(ans)
+            });
         }
         co_return res;
     }
@@ -435,8 +460,12 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> sendLinkTimeout(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto block = buf.subspan(0, std::min(buf.size(), kSslBlockSize));
+            _ssl.get().writePlaintext(block);
+            co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+            buf = buf.subspan(block.size());
+        }
     }
 
     template <typename Timeout>
-- 
2.43.0


From f89993c253a9203957c633f1fff82f39d8c75afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 45/56] fix: server-sent events were lost or altered: pings and
 events sent behind the head delayed others, chunked streams, long lines, CR
 line ends, leading spaces and empty lines were not understood

---
 include/HXLibs/net/protocol/http/Response.hpp | 196 ++++++++++--------
 1 file changed, 106 insertions(+), 90 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index ca91532..3ca627d 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -49,22 +49,81 @@ class HttpResponse;
 
 namespace internal {
 
-inline void fromSse(std::string& v, std::string_view sv) {
-    if (v.size()) {
-        v += '\n';
+/**
+ * @brief SSE 解析器, 与数据如何分片无关
+ */
+class SseParser {
+public:
+    /**
+     * @brief 从 buf 头部解析出下一个事件
+     * @param buf [in, out] 还没有解析的数据; 会移除已经解析的部分
+     * @return 下一个完整的事件; 如果为空, 则需要更多数据
+     */
+    std::optional<SseEvent> next(std::string_view& buf) {
+        using namespace std::string_view_literals;
+        while (buf.size()) {
+            if (std::exchange(_isSkipLf, false) && buf.front() == '\n') {
+                buf.remove_prefix(1); // \r\n 是一个换行
+                continue;
+            }
+            auto pos = buf.find_first_of("\r\n"sv);
+            _line.append(buf.substr(0, pos));
+            if (pos == std::string_view::npos) { // 没有读取完
+                buf = {};
+                break;
+            }
+            _isSkipLf = buf[pos] == '\r';
+            buf.remove_prefix(pos + 1);
+            std::string line = std::exchange(_line, {});
+            if (std::exchange(_isFirstLine, false) && line.starts_with("\xEF\xBB\xBF"sv)) {
+                line.erase(0, 3); // 去掉 BOM
+            }
+            if (line.size()) {
+                parserLine(line);
+            } else if (std::exchange(_hasData, false) || _event) { // 空行: 事件结束
+                return std::exchange(_event, {});
+            }
+        }
+        return std::nullopt;
+    }
+private:
+    void parserLine(std::string_view line) {
+        using namespace std::string_view_literals;
+        auto pos = line.find(':');
+        auto key = line.substr(0, pos);
+        auto val = pos == std::string_view::npos ? std::string_view{} : line.substr(pos + 1);
+        if (val.starts_with(' ')) { // 如果:后面有一个空格, 会吃掉
+            val.remove_prefix(1);
+        }
+        if (key == "data"sv) {
+            if (std::exchange(_hasData, true)) {
+                _event.data += '\n';
+            }
+            _event.data += val;
+        } else if (key == "event"sv) {
+            _event.event = val;
+        } else if (key == "id"sv) {
+            if (val.find('\0') == std::string_view::npos) {
+                _event.id.emplace(val);
+            }
+        } else if (key == "retry"sv) {
+            std::chrono::milliseconds::rep ms{};
+            auto end = val.data() + val.size();
+            if (val.size() && val.front() != '-') {
+                auto [ptr, ec] = std::from_chars(val.data(), end, ms);
+                if (ec == std::errc{} && ptr == end) {
+                    _event.retry.emplace(ms);
+                }
+            }
+        } // 其他的 (如 key 为空的注释) 忽略
     }
-    v += sv;
-}
-
-inline void fromSse(std::optional<std::string>& v, std::string_view sv) {
-    v.emplace(sv);
-}
 
-inline void fromSse(std::optional<std::chrono::milliseconds>& v, std::string_view sv) {
-    uint64_t ms{};
-    reflection::Numer::fromNumer<uint64_t>(ms, sv);
-    v.emplace(ms);
-}
+    std::string _line{};      // 没有读取完的一行
+    SseEvent _event{};        // 没有读取完的事件
+    bool _hasData = false;    // 当前事件是否有 data 字段
+    bool _isSkipLf = false;   // 上一个字符是否为 \r
+    bool _isFirstLine = true; // 是否为第一行
+};
 
 template <typename IOType>
 class SseStream {
@@ -81,41 +140,41 @@ public:
 
     coroutine::Task<> push(SseEvent& event) {
         using namespace std::string_view_literals;
-        auto& io = _res.getIO();
+        std::string buf;
         if (event.event.size()) {
-            co_await sendStr("event:"sv, event.event);
+            append(buf, "event:"sv, event.event);
         }
         if (event.data.size()) {
-            co_await sendStr("data:"sv, event.data);
+            append(buf, "data:"sv, event.data);
         }
         if (event.id) {
-            co_await sendStr("id:"sv, *event.id);
+            append(buf, "id:"sv, *event.id);
         }
         if (event.retry) {
-            co_await io.fullySend("retry:"sv);
-            co_await io.fullySend(log::formatString(event.retry->count()));
-            co_await io.fullySend("\n"sv);
+            append(buf, "retry:"sv, log::formatString(event.retry->count()));
         }
-        co_await io.fullySend("\n"sv);
+        buf += '\n';
+        co_await _res.getIO().fullySend(buf);
     }
 private:
-    coroutine::Task<> sendStr(std::string_view key, std::string_view val) {
+    /**
+     * @brief 写入一个字段; 如果有多行, 则每行都是一个字段
+     */
+    static void append(std::string& buf, std::string_view key, std::string_view val) {
         using namespace std::string_view_literals;
-        auto& io = _res.getIO();
-        auto pos = val.find('\n');
         for (;;) {
-            co_await io.fullySend(key);
+            auto pos = val.find_first_of("\r\n"sv);
+            auto line = val.substr(0, pos);
+            buf += key;
+            if (line.starts_with(' ')) { // 解析时会吃掉一个空格
+                buf += ' ';
+            }
+            buf += line;
+            buf += '\n';
             if (pos == std::string_view::npos) {
-                co_await io.fullySend(val);
-                co_await io.fullySend("\n"sv);
                 break;
-            } else {
-                auto _ = val.substr(0, pos);
-                co_await io.fullySend(_);
-                co_await io.fullySend("\n"sv);
             }
-            val = val.substr(pos + 1);
-            pos = val.find('\n');
+            val = val.substr(pos + (val.substr(pos).starts_with("\r\n"sv) ? 2 : 1));
         }
     }
 
@@ -290,8 +349,19 @@ public:
             throw std::runtime_error{"SSE protocol error"};
         }
         // 进行 SSE 解析, 只有 TCP close 才是 SSE 结束, 因为它默认不会结束. 需用户协议好 [done] data
-        SseEvent event;
+        internal::SseParser parser;
+        _bodyDecoder.begin(_responseHeaders, true);
         for (;;) {
+            std::string_view buf{_recvBuf.data(), _recvBuf.size()};
+            for (auto data = _bodyDecoder.next(buf); data.size(); data = _bodyDecoder.next(buf)) {
+                while (auto event = parser.next(data)) {
+                    co_yield std::move(*event);
+                }
+            }
+            if (_bodyDecoder.isDone()) [[unlikely]] {
+                throw std::runtime_error{"parseBody: SSE stream is over"};
+            }
+            _needMore(buf);
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + _recvBuf.max_size()}
@@ -308,12 +378,8 @@ public:
                 throw std::runtime_error{"parseBody: Connection is Broken"};
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
-            while (_parserSseStrem(event)) {
-                co_yield std::move(event);
-                new (&event)SseEvent;
-            }
         }
-        co_return std::move(event);
+        co_return {};
     }
 
     /**
@@ -1047,56 +1113,6 @@ private:
         }
         _completeBody = true;
     }
-
-    /**
-     * @brief 解析 SSE 流
-     * @return true 分块完成, 可以返回
-     * @return false 继续读取
-     */
-    bool _parserSseStrem(SseEvent& sse) {
-        using namespace std::string_view_literals;
-        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        /*
-        data: xxxx\n
-        data:yyyy\n
-        \n
-        : 这是注释, 可保活\n
-        da... // 未读取(传输)完全, 需要继续解析
-              // 如果:后面有一个空格, 会吃掉
-        */
-        for (auto pos = buf.find('\n');
-            pos != std::string_view::npos;
-            pos = buf.find('\n')
-        ) {
-            // now line is: [0, pos)
-            auto skPos = buf.find(':');
-            if (skPos >= pos) {
-                // 说明本行是 \n
-                _recvBuf.moveToHead(buf.substr(1)); // 跳过 \n
-                return sse;
-            }
-            auto key = buf.substr(0, skPos);
-            if (key.size()) { // 仅 \n
-                static const auto mp = reflection::makeNameToIdxVariantHashMap<SseEvent>();
-                if (auto it = mp.find(key); it != mp.end()) {
-                    std::visit([&](auto&& idx) constexpr {
-                        using PtrType = typename meta::RemoveCvRefType<decltype(idx)>::Type*;
-                        auto ptr = reinterpret_cast<PtrType>(
-                            reinterpret_cast<char*>(&sse) + idx.offset
-                        );
-                        auto val = buf.substr(skPos + 1, pos - skPos - 1);
-                        if (val.front() == ' ') {
-                            val = val.substr(1);
-                        }
-                        internal::fromSse(*ptr, val);
-                    }, it->second);
-                }
-            }
-            buf = buf.substr(pos + 1); // 跳过 \n
-        }
-        _recvBuf.moveToHead(buf);
-        return false;
-    }
 };
 
 } // namespace HX::net
-- 
2.43.0


From 8f4e8b53704cf76548b5b0d5c479f3ea82bfdd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 46/56] fix: requests named the host without its port, and sent
 fragments or the wrong part of the URL as their target

---
 include/HXLibs/net/client/HttpClient.hpp     |  3 ++-
 include/HXLibs/net/protocol/url/UrlParse.hpp | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 7dcc81a..b55910e 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -759,7 +759,8 @@ private:
      */
     void preprocessHeaders(std::string const& url, HttpContentType contentType, Request& req) {
         try {
-            auto host = UrlParse::extractDomainName(url);
+            UrlParse::extractDomainName(url); // 校验
+            std::string host{UrlParse::extractHostPort(url)};
             req.tryAddHeaders("Host", host);
             _host = std::move(host);
         } catch ([[maybe_unused]] std::exception const& e) {
diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index dc4d1ec..63e77c5 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -37,13 +37,23 @@ struct UrlParse {
     /**
      * @brief 从 URL 从提取出 Ptah 
      * @param url 
-     * @return std::string_view Ptah
+     * @return std::string Ptah (包含参数, 不包含锚点)
      */
-    static std::string_view extractPath(std::string_view url) {
+    static std::string extractPath(std::string_view url) {
+        url = url.substr(0, url.find('#')); // 锚点不会发送给服务端
         std::size_t protocolFind = url.find("://");
-        std::size_t pathFind = url.find("/",
-            protocolFind == std::string_view::npos ? 0 : protocolFind + 3);
-        return pathFind == std::string_view::npos ? "/" : url.substr(pathFind);
+        if (protocolFind != std::string_view::npos && protocolFind < url.find_first_of("/?")) {
+            url.remove_prefix(protocolFind + 3);
+        }
+        std::size_t pathFind = url.find_first_of("/?");
+        if (pathFind == std::string_view::npos) {
+            return "/";
+        }
+        std::string path{url.substr(pathFind)};
+        if (path.front() == '?') { // 没有路径, 只有参数
+            path.insert(path.begin(), '/');
+        }
+        return path;
     }
 
     /**
-- 
2.43.0


From c2310449ecfacda3859dfc3069c68f74c80f41ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 47/56] fix: make starting and stopping a server deterministic:
 count threads before they run, wait until they listen, always clear the
 running flag, join before members die, close the socket when listening fails

---
 include/HXLibs/net/server/Acceptor.hpp   |  30 ++--
 include/HXLibs/net/server/HttpServer.hpp | 171 ++++++++++++-----------
 2 files changed, 113 insertions(+), 88 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index 274ec20..c3a2c7c 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -29,6 +29,7 @@
 #if defined(__linux__)
     #include <netinet/in.h>
     #include <netinet/tcp.h> // TCP_NODELAY
+    #include <unistd.h>
 #endif
 
 #include <HXLibs/log/Log.hpp>
@@ -49,10 +50,16 @@ struct Acceptor {
 
     Acceptor& operator=(Acceptor&&) noexcept = delete;
 
-    template <typename Timeout>
+    /**
+     * @brief 开始监听并接受连接
+     * @param isRun 是否继续运行
+     * @param onListen 已经开始监听时的回调
+     */
+    template <typename Timeout, typename Func = decltype([]{})>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<> start(std::atomic_bool const& isRun) {
+    coroutine::Task<> start(std::atomic_bool const& isRun, Func onListen = {}) {
         auto serverFd = co_await makeServerFd();
+        onListen();
         for (;;) [[likely]] {
             auto fd = co_await _eventLoop.makeAioTask().prepAccept(
                 serverFd,
@@ -107,13 +114,18 @@ private:
         // 造成毫秒级停顿; Linux 上 accept 出的连接会继承监听套接字的该选项
         setsockopt(serverFd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof(on));
 
-        exception::LinuxErrorHandlingTools::convertError<int>(
-            ::bind(serverFd, serAddr._addr, serAddr._addrlen)
-        ).expect("bind");
-
-        exception::LinuxErrorHandlingTools::convertError<int>(
-            ::listen(serverFd, SOMAXCONN)
-        ).expect("listen");
+        try {
+            exception::LinuxErrorHandlingTools::convertError<int>(
+                ::bind(serverFd, serAddr._addr, serAddr._addrlen)
+            ).expect("bind");
+
+            exception::LinuxErrorHandlingTools::convertError<int>(
+                ::listen(serverFd, SOMAXCONN)
+            ).expect("listen");
+        } catch (...) {
+            ::close(serverFd);
+            throw;
+        }
 
         co_return serverFd;
 #elif defined(_WIN32)
diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index 386c200..a5447f9 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -18,6 +18,11 @@
  * limitations under the License.
  */
 
+#include <chrono>
+#include <condition_variable>
+#include <mutex>
+#include <utility>
+
 #include <HXLibs/net/router/Router.hpp>
 #include <HXLibs/net/socket/AddressResolver.hpp>
 #include <HXLibs/net/server/Acceptor.hpp>
@@ -41,6 +46,9 @@ public:
         : _router{}
         , _asyncStopThread{}
         , _port{std::to_string(port)}
+        , _mtx{}
+        , _cv{}
+        , _startNum{0}
         , _runNum{0}
         , _isRun{true}
     {}
@@ -52,8 +60,15 @@ public:
      * @warning 该方法不可重入
      */
     void syncStop() noexcept {
+        using namespace std::chrono_literals;
         _isRun.store(false, std::memory_order_release);
-        static_cast<Self*>(this)->syncStop();
+        while (_runNum.load(std::memory_order_acquire)) {
+            static_cast<Self*>(this)->wakeUp();
+            // 还有没有处理完毕的连接, 则稍后再试
+            std::unique_lock _{_mtx};
+            _cv.wait_for(_, 10ms, [this] { return !_runNum; });
+        }
+        log::hxLog.warning("服务器已关闭...");
     }
 
     /**
@@ -121,7 +136,7 @@ public:
     }
 
     /**
-     * @brief 异步启动 HttpServer
+     * @brief 异步启动 HttpServer, 返回时所有线程都已经开始监听 (或者监听失败)
      * @warning 本方法不可重入, 并且线程不安全
      * @tparam Timeout 字面常量, 表示超时时间 (单位: 秒(s))
      * @param threadNum 线程数
@@ -141,11 +156,23 @@ public:
             throw std::runtime_error{"The server is already running"};
         }
         init();
+        _threads.reserve(threadNum);
         for (std::size_t i = 0; i < threadNum; ++i) {
-            _threads.emplace_back([this] {
-                _sync<Timeout>();
-            });
+            // 必须在线程启动之前计数, 否则紧接着的关闭可能会误以为没有线程在运行
+            ++_startNum;
+            ++_runNum;
+            try {
+                _threads.emplace_back([this] {
+                    _sync<Timeout>();
+                });
+            } catch (...) {
+                started();
+                stopped();
+                throw;
+            }
         }
+        std::unique_lock _{_mtx};
+        _cv.wait(_, [this] { return !_startNum; });
     }
 
     /**
@@ -164,13 +191,46 @@ public:
 
     ~HttpBaseServer() noexcept {
         syncStop();
+        // 线程还会使用其他成员, 必须先等待它们结束
+        _asyncStopThread.reset();
+        _threads.clear();
     }
 
 private:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     void _sync() {
-        static_cast<Self*>(this)->template _sync<Timeout>();
+        bool isStarted = false;
+        auto onListen = [&] {
+            if (!std::exchange(isStarted, true)) {
+                started();
+            }
+        };
+        try {
+            coroutine::EventLoop _eventLoop;
+            AddressResolver addr;
+            auto entry = addr.resolve("0.0.0.0", _port);
+            Acceptor<IOType> acceptor{_router, _eventLoop, entry};
+            auto mainTask = acceptor.template start<Timeout>(_isRun, onListen);
+            _eventLoop.start(mainTask);
+            _eventLoop.run();
+        } catch (std::exception const& ec) {
+            log::hxLog.error("Server Error:", ec.what());
+        }
+        onListen(); // 监听失败
+        stopped();
+    }
+
+    void started() {
+        std::lock_guard _{_mtx};
+        --_startNum;
+        _cv.notify_all();
+    }
+
+    void stopped() {
+        std::lock_guard _{_mtx};
+        --_runNum;
+        _cv.notify_all();
     }
 
     void info() {
@@ -182,7 +242,10 @@ protected:
     std::vector<std::jthread> _threads;
     std::unique_ptr<std::jthread> _asyncStopThread; // 异步关闭服务器时候使用的线程
     std::string _port;
-    std::atomic_uint16_t _runNum;
+    std::mutex _mtx;
+    std::condition_variable _cv;
+    std::atomic_size_t _startNum;   // 还没有开始监听的线程数
+    std::atomic_size_t _runNum;     // 还没有结束的线程数
     std::atomic_bool _isRun;
 };
 
@@ -191,27 +254,6 @@ public:
     using Base = HttpBaseServer<HttpServer, HttpIO>;
     using Base::Base;
 
-    void syncStop() noexcept {
-        using namespace utils;
-        while (_runNum) {
-            try {
-                // ! Win 上面, 0.0.0.0 无法被路由, 只能 127.0.0.1 访问!
-                HttpClient cli{HttpClientOptions{}};
-                cli.get(
-                    (std::is_same_v<IO, HttpIO> ? std::string{"http"} : std::string{"https"}) 
-                    + "://127.0.0.1:"
-                    + _port
-                    + "/",
-                    {{"Connection", "close"}}
-                ).get();
-                cli.close();
-            } catch (...) {
-                ;
-            }
-        }
-        log::hxLog.warning("服务器已关闭...");
-    }
-
     /**
      * @brief 注册控制器到服务器, 可以进行依赖注入, 依次传参即可
      * @tparam T 控制器类型
@@ -228,22 +270,18 @@ public:
 private:
     friend Base;
 
-    template <typename Timeout>
-        requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
+    /**
+     * @brief 发送一个请求, 使得一个线程不再阻塞于 accept
+     */
+    void wakeUp() noexcept {
         try {
-            coroutine::EventLoop _eventLoop;
-            AddressResolver addr;
-            auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
-            Acceptor<HttpIO> acceptor{_router, _eventLoop, entry};
-            auto mainTask = acceptor.start<Timeout>(_isRun);
-            _eventLoop.start(mainTask);
-            _eventLoop.run();
-        } catch (std::exception const& ec) {
-            log::hxLog.error("Server Error:", ec.what());
+            // ! Win 上面, 0.0.0.0 无法被路由, 只能 127.0.0.1 访问!
+            HttpClient cli{HttpClientOptions{}};
+            cli.get("http://127.0.0.1:" + _port + "/", {{"Connection", "close"}}).get();
+            cli.close();
+        } catch (...) {
+            ;
         }
-        --_runNum;
     }
 
     void info() {
@@ -261,29 +299,6 @@ public:
     using Base = HttpBaseServer<HttpsServer, HttpsIO>;
     using Base::Base;
 
-    void syncStop() noexcept {
-        using namespace utils;
-        while (_runNum) {
-            try {
-                HttpsClient cli{HttpClientOptions{}};
-                cli.initSsl({
-                    SslVerifyOption::None
-                });
-                cli.get(
-                    (std::is_same_v<IO, HttpIO> ? std::string{"http"} : std::string{"https"}) 
-                    + "://127.0.0.1:"
-                    + _port
-                    + "/",
-                    {{"Connection", "close"}}
-                ).get();
-                cli.close();
-            } catch (...) {
-                ;
-            }
-        }
-        log::hxLog.warning("服务器已关闭...");
-    }
-
     /**
      * @brief 注册控制器到服务器, 可以进行依赖注入, 依次传参即可
      * @tparam T 控制器类型
@@ -300,22 +315,20 @@ public:
 private:
     friend Base;
 
-    template <typename Timeout>
-        requires(utils::HasTimeNTTP<Timeout>)
-    void _sync() {
+    /**
+     * @brief 发送一个请求, 使得一个线程不再阻塞于 accept
+     */
+    void wakeUp() noexcept {
         try {
-            coroutine::EventLoop _eventLoop;
-            AddressResolver addr;
-            auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
-            Acceptor<HttpsIO> acceptor{_router, _eventLoop, entry};
-            auto mainTask = acceptor.start<Timeout>(_isRun);
-            _eventLoop.start(mainTask);
-            _eventLoop.run();
-        } catch (std::exception const& ec) {
-            log::hxLog.error("Server Error:", ec.what());
+            HttpsClient cli{HttpClientOptions{}};
+            cli.initSsl({
+                SslVerifyOption::None
+            });
+            cli.get("https://127.0.0.1:" + _port + "/", {{"Connection", "close"}}).get();
+            cli.close();
+        } catch (...) {
+            ;
         }
-        --_runNum;
     }
 
     void info() {
-- 
2.43.0


From b089a806a58bdb4ae19269ef80aa2ea49dc75e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 48/56] fix: a manager that withdrew a removal while a worker
 was being woken for it made that worker take a task from the empty queue

---
 include/HXLibs/container/ThreadPool.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index a1aca69..0d5812a 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -238,9 +238,12 @@ private:
                 static_cast<int64_t>(maxNum) - workerSize
             );
             if (add > 0) {
-                // 优先撤回还没有执行的删除
-                while (add > 0 && tryDecrementIfPositive(_delCnt)) {
-                    --add;
+                {
+                    // 优先撤回还没有执行的删除; 必须在锁内, 否则因此被唤醒的线程会以为有任务
+                    std::lock_guard _{_mtx};
+                    while (add > 0 && tryDecrementIfPositive(_delCnt)) {
+                        --add;
+                    }
                 }
                 clearDelIdQueue();
                 makeWorker(static_cast<std::size_t>(add));
-- 
2.43.0


From 4c6d7f52dd608189c12fbf2b7b16379e65a99e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 49/56] fix: requests with space before a header's colon, two
 different lengths or a transfer coding other than chunked were acted on, so
 that what others take for a body was handled as a request

---
 .../HXLibs/net/protocol/http/BodyDecoder.hpp  | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/BodyDecoder.hpp b/include/HXLibs/net/protocol/http/BodyDecoder.hpp
index 2788aa8..c8e12cb 100644
--- a/include/HXLibs/net/protocol/http/BodyDecoder.hpp
+++ b/include/HXLibs/net/protocol/http/BodyDecoder.hpp
@@ -18,6 +18,7 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <tuple>
 #include <utility>
 
 #include <HXLibs/net/protocol/http/Http.hpp>
@@ -58,7 +59,9 @@ inline void parserHeaderLine(
         return;
     }
     auto pos = line.find(':');
-    if (pos == 0 || pos == std::string_view::npos) [[unlikely]] {
+    if (pos == 0 || pos == std::string_view::npos
+        || line[pos - 1] == ' ' || line[pos - 1] == '\t' // `:`前面不允许有空白
+    ) [[unlikely]] {
         throw std::runtime_error{"Http header: not a field"};
     }
     // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
@@ -66,9 +69,12 @@ inline void parserHeaderLine(
     for (char& c : key) {
         c = static_cast<char>(toLower(static_cast<unsigned char>(c)));
     }
-    last = headers.emplace(
-        std::move(key), std::string{trimOws(line.substr(pos + 1))}
-    ).first;
+    auto val = trimOws(line.substr(pos + 1));
+    bool isNew = false;
+    std::tie(last, isNew) = headers.emplace(std::move(key), std::string{val});
+    if (!isNew && last->first == CONTENT_LENGTH_SV && last->second != val) [[unlikely]] {
+        throw std::runtime_error{"Http header: conflicting content-length"};
+    }
 }
 
 /**
@@ -124,10 +130,15 @@ public:
         if (_state != State::None) {
             return;
         }
-        if (headers.contains(TRANSFER_ENCODING_SV)) {
+        if (auto te = headers.find(TRANSFER_ENCODING_SV); te != headers.end()) {
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25)
              */
+            std::string_view coding = te->second; // 最后一个编码必须是 chunked
+            coding = trimOws(coding.substr(coding.rfind(',') + 1));
+            if (!TransparentCaseInsensitiveEqual{}(coding, "chunked")) [[unlikely]] {
+                throw std::runtime_error{"Http body: unsupported transfer-encoding"};
+            }
             _state = State::ChunkSize;
         } else if (auto it = headers.find(CONTENT_LENGTH_SV); it != headers.end()) {
             _remaining = toSize<10>(it->second);
-- 
2.43.0


From c1a6d4afe6cc6e503bdecd30feb361c21e2c0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 50/56] fix: writing a whole file reported success when the
 system could not write it

---
 include/HXLibs/utils/FileUtils.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 746a180..03f34a9 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -18,6 +18,7 @@
  * limitations under the License.
  * */
 
+#include <cerrno>
 #include <fstream>
 #include <string>
 #include <string_view>
@@ -97,11 +98,12 @@ public:
         if (!file.is_open()) [[unlikely]] {
             throw std::system_error{errno, std::generic_category()};
         }
-        std::copy(
-            content.begin(),
-            content.end(),
-            std::ostreambuf_iterator<char>(file)
-        );
+        errno = 0;
+        file.write(content.data(), static_cast<std::streamsize>(content.size()));
+        file.close();
+        if (!file) [[unlikely]] { // 没有完全写入
+            throw std::system_error{errno ? errno : EIO, std::generic_category()};
+        }
     }
 };
 
-- 
2.43.0


From b3e21a6ab3b06a1d27ade06f883974cd43c771cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 51/56] fix: a client pool grew by one client too many, raced
 with requests while growing, and its requst and close could not be compiled

---
 include/HXLibs/net/client/HttpClientPool.hpp | 32 ++++++++++++--------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClientPool.hpp b/include/HXLibs/net/client/HttpClientPool.hpp
index b51dc6d..e817f88 100644
--- a/include/HXLibs/net/client/HttpClientPool.hpp
+++ b/include/HXLibs/net/client/HttpClientPool.hpp
@@ -50,7 +50,7 @@ public:
         if (newSize <= _cliPool.size()) {
             _cliPool.resize(newSize);
         } else {
-            for (std::size_t i = _cliPool.size(); i <= newSize; ++i) {
+            for (std::size_t i = _cliPool.size(); i < newSize; ++i) {
                 _cliPool.emplace_back(std::make_unique<HttpClientType>(options));
             }
         }
@@ -77,7 +77,7 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template get<Timeout>(
+        return next().template get<Timeout>(
             std::move(url), std::move(headers)
         );
     }
@@ -97,7 +97,7 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template post<Timeout>(
+        return next().template post<Timeout>(
             std::move(url), std::move(body),
             contentType, std::move(headers)
         );
@@ -117,14 +117,14 @@ public:
         typename Timeout = decltype(30_s),
         meta::StringType Str = std::string
     >
-    container::FutureResult<container::Try<ResponseData>> requst(
+    container::FutureResult<container::Try<ResponseData>> request(
         std::string url,
         HeaderHashMap headers = {},
         Str&& body = {},
         HttpContentType contentType = HttpContentType::None,
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template requst<Method, Timeout>(
+        return next().template request<Method, Timeout>(
             std::move(url),
             std::move(headers),
             std::forward<Str>(body),
@@ -152,7 +152,7 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template wsLoop<Timeout>(
+        return next().template wsLoop<Timeout>(
             std::move(url), std::forward<Func>(func), std::move(headers)
         );
     }
@@ -174,23 +174,31 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template uploadChunked<Method, Timeout>(
+        return next().template uploadChunked<Method, Timeout>(
             std::move(url), std::move(path),
             contentType, std::move(headers)
         );
     }
 
     /**
-     * @brief 断开连接
-     * @return container::FutureResult<> 
+     * @brief 断开所有连接 (应该在没有正在进行的请求时候调用)
      */
-    container::FutureResult<> close() {
-        return _cliPool.at(getIdxAndNext())->close();
+    void close() {
+        std::unique_lock _{_mtx};
+        for (auto& cli : _cliPool) {
+            cli->close();
+        }
     }
 private:
+    // 获取下一个客户端 (_cliPool 可能正在扩容)
+    HttpClientType& next() noexcept {
+        std::unique_lock _{_mtx};
+        return *_cliPool[++_index %= _cliPool.size()];
+    }
+
     std::vector<std::unique_ptr<HttpClientType>> _cliPool;
     std::mutex _mtx;
-    std::uint64_t _index;
+    std::uint64_t _index{0};
 };
 
 template <typename Proxy>
-- 
2.43.0


From 2123291e1889dc8cf6c3edcbb3720795dd615b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 52/56] fix: a path-only request after connecting names the
 connected host

---
 include/HXLibs/net/client/HttpClient.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index b55910e..cecff7d 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -643,6 +643,7 @@ private:
             }
 #endif // !HXLIBS_ENABLE_SSL
             _origin = getOrigin(url);
+            _host = std::string{UrlParse::extractHostPort(url)};
             co_return;
         } catch (...) {
             log::hxLog.error("连接失败");
-- 
2.43.0


From e999c9a12526f957fc7ce85922b773ee5fa648cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 53/56] fix: indexes and foreign keys named the struct instead
 of its custom table name

---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index 6d07fb5..14fe5f9 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -115,7 +115,7 @@ struct CreateDbSql {
                     using ForeignTable = meta::GetMemberPtrsClassType<decltype(Key)>;
                     std::string keySql = "FOREIGN KEY(";
                     std::string refSql = " REFERENCES ";
-                    refSql += reflection::getTypeName<ForeignTable>();
+                    refSql += getTableName<ForeignTable>();
                     refSql += '(';
 
                     auto map = reflection::makeMemberPtrToNameMap<ForeignTable>();
@@ -185,7 +185,7 @@ struct CreateDbSql {
                         // 内外键对应的类型应该相同 (ForeignMap 类型默认保证)
                         std::string keySql = "FOREIGN KEY(";
                         std::string refSql = " REFERENCES ";
-                        refSql += reflection::getTypeName<ForeignTable>();
+                        refSql += getTableName<ForeignTable>();
                         refSql += '(';
                         
                         auto selfNameMap = reflection::makeMemberPtrToNameMap<Table>();
@@ -259,9 +259,9 @@ struct CreateDbSql {
         auto sqls = std::vector<std::string>{};
 #if defined(_MSC_VER)
         // https://github.com/HengXin666/HXLibs/issues/17 (MSVC ICE)
-        const auto tableName = reflection::getTypeName<Table>();
+        const auto tableName = getTableName<Table>();
 #else
-        constexpr auto tableName = reflection::getTypeName<Table>();
+        constexpr auto tableName = getTableName<Table>();
 #endif // !defined(_MSC_VER)
         reflection::forEach(t, [&] (auto, auto name, auto&& val) {
             using Type = meta::RemoveCvRefType<decltype(val)>;
-- 
2.43.0


From f0b8ff3fd7acccd6457ae9054ebbd5e1e46f5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 54/56] fix: creating a table that exists already failed if it
 has an index

---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index 14fe5f9..bf59f29 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -269,7 +269,7 @@ struct CreateDbSql {
                 [&] <typename U, typename... ConstraintTypes> (Constraint<U, ConstraintTypes...>&) {
                     ([&] <typename Constraint> (Constraint) {
                         if constexpr (attr::IsIndexVal<Constraint>) {
-                            std::string sql = "CREATE INDEX idx_";
+                            std::string sql = "CREATE INDEX IF NOT EXISTS idx_";
                             sql += tableName;
                             sql += '_';
                             sql += name;
@@ -302,7 +302,7 @@ struct CreateDbSql {
                         static_assert(!std::is_void_v<meta::GetMemberPtrsClassType<
                             attr::internal::GetIndexOrderKeyType<Keys>...>>,
                             "It is required that all indexes are from the same class");
-                        std::string sql = "CREATE INDEX idx_";
+                        std::string sql = "CREATE INDEX IF NOT EXISTS idx_";
                         std::string idxSql = "(";
                         sql += tableName;
                         ([&] <auto KeyPtr, attr::Order SortOrder> (attr::IndexOrder<KeyPtr, SortOrder>) {
-- 
2.43.0


From 7fae512eef7faf45dfddc2ecf271609bdd874e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 55/56] fix: a textual default was written in double quotes and
 broke on quotes in the text

---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index bf59f29..0e0db11 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -103,7 +103,16 @@ struct CreateDbSql {
             } else if constexpr (attr::IsDefaultValTypeVal<Constraint>) {
                 [&] <auto Value> (attr::DefaultVal<Value>) {
                     mainSql += "DEFAULT ";
-                    mainSql += log::toString(Value);
+                    if constexpr (requires { std::string_view{Value}; }) {
+                        // SQL 字符串字面量: 单引号需要双写
+                        mainSql += '\'';
+                        for (char c : std::string_view{Value}) {
+                            mainSql.append(c == '\'' ? 2 : 1, c);
+                        }
+                        mainSql += '\'';
+                    } else {
+                        mainSql += log::toString(Value);
+                    }
                 }(Constraint{});
             } else if constexpr (attr::IsForeignVal<Constraint>) {
                 [&] <auto Key> (attr::Foreign<Key>) {
-- 
2.43.0


From 328366843a2e570b93decc3bfb557c6685e847f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 56/56] fix: two indexes over the same columns in different
 order got the same name

---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index 0e0db11..8f874d9 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -282,6 +282,9 @@ struct CreateDbSql {
                             sql += tableName;
                             sql += '_';
                             sql += name;
+                            if constexpr (std::is_same_v<Constraint, attr::DescIndex>) {
+                                sql += "_Desc"; // 区分同一字段的升序索引
+                            }
                             sql += " ON ";
                             sql += tableName;
                             sql += '(';
@@ -318,6 +321,9 @@ struct CreateDbSql {
                             auto name = map.at(KeyPtr);
                             sql += '_';
                             sql += name;
+                            if constexpr (SortOrder == attr::Order::Desc) {
+                                sql += "_Desc"; // 区分同一字段的升序索引
+                            }
                             idxSql += name;
                             idxSql += ' ';
                             idxSql += reflection::toEnumName<attr::Order, SortOrder>();
-- 
2.43.0

