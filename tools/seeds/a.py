SEEDS = [
dict(id="json-bmp-edge", prop="P26",
 edits=[("include/HXLibs/reflection/json/JsonWrite.hpp", "(codepoint >= 0xE000 && codepoint <= 0xFFFF)", "(codepoint >= 0xE000 && codepoint < 0xFFFF)")],
 needs="a string holding U+FFFF, the last code point of the basic plane", breaks="writing that (valid) text throws instead of producing JSON that reads back",
 demo='''#include <HXLibs/reflection/json/JsonRead.hpp>
#include <HXLibs/reflection/json/JsonWrite.hpp>
#include <cstdio>
struct R { std::string s; };
int main() {
    R a{"x\\xef\\xbf\\xbfy"}, b; std::string out;
    try { HX::reflection::toJson(a, out); HX::reflection::fromJson(b, out); } catch (std::exception& e) { std::puts(e.what()); return 1; }
    return a.s == b.s ? 0 : 1;
}
'''),
dict(id="cosharedptr-assign", prop="P33",
 edits=[("include/HXLibs/container/CoSharedPtr.hpp", "        CoSharedPtr{that}.swap(*this);\n        return *this;", "        if (_ptr == that._ptr) {\n            return *this;\n        }\n        delRefCnt();\n        _ptr = that._ptr;\n        addRefCnt();\n        return *this;")],
 needs="assigning a pointer from one stored inside the object that it alone owns (p = p->next)", breaks="the source is destroyed with the old object before it is read: use after free, object lost",
 demo='''#include <cstdlib>
#include <HXLibs/container/CoSharedPtr.hpp>
#include <cstdio>
using namespace HX::container;
static int live = 0;
struct N { int v; CoSharedPtr<N> next; N(int v) : v(v) { ++live; } N(N const&) = delete; ~N() { --live; v = -1; } };
int main() {
    auto p = makeCoSharedPtr<N>(1); p->next = makeCoSharedPtr<N>(2);
    p = p->next;
    bool ok = p && p->v == 2 && p.useCount() == 1 && live == 1;
    if (!ok) std::_Exit(1);
    return 0;
}
''', flags="-fsanitize=address"),
dict(id="sha1-pad-edge", prop="P28",
 edits=[("include/HXLibs/net/protocol/codec/SHA1.hpp", "if (buflen > BLOCK_BYTES - 8) {", "if (buflen > BLOCK_BYTES - 7) {")],
 needs="a message whose length is 56 modulo 64", breaks="the digest of those messages is wrong (padding shares the block with the length)",
 demo='''#include <cstring>
#include <algorithm>
#include <cstdint>
#include <HXLibs/net/protocol/codec/SHA1.hpp>
#include <openssl/sha.h>
#include <string>
int main() {
    for (int n = 0; n < 130; ++n) {
        std::string s(n, 'a'); unsigned char a[20], b[20];
        HX::net::SHA1Context c; c.update(s.data(), s.size()); c.finish(a);
        ::SHA1((unsigned char const*)s.data(), s.size(), b);
        if (std::memcmp(a, b, 20)) return 1;
    }
}
''', libs="-lcrypto"),
dict(id="split-doubled-delim", prop="P36",
 edits=[("include/HXLibs/utils/StringUtils.hpp", "                res.emplace_back(start, str.substr(start, end - start));\n            }\n            start = end + delim.size();", "                res.emplace_back(start, str.substr(start, end - start));\n            }\n            start = end + (end == start ? 1 : delim.size());")],
 needs="a delimiter of two or more characters at the very start of the text or doubled", breaks="splitWithPos invents a fragment of the delimiter",
 demo='''#include <HXLibs/utils/StringUtils.hpp>
using HX::utils::StringUtil;
int main() {
    auto a = StringUtil::splitWithPos<std::string>("a::::b", "::"); auto b = StringUtil::splitWithPos<std::string>("::a", "::");
    return a.size() == 2 && a[1].second == "b" && a[1].first == 5 && b.size() == 1 && b[0].second == "a" ? 0 : 1;
}
'''),
]
