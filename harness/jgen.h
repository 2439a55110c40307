/* jgen.h - enumerates documents: every sequence of pieces which may still become a
 * document, up to a length; once the reference knows that a sequence can't, it is
 * extended by every sequence of `after` more pieces, as what follows an error must
 * not turn it into something acceptable. */
#pragma once
#include "jref.h"

namespace jg {

inline const std::vector<std::string>& tokens()
{
    static std::vector<std::string> t = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "1.5", "true", "null" };
    return t;
}
// single bytes, and the words that would make documents too long
inline const std::vector<std::string>& bytes()
{
    static std::vector<std::string> t = { "{", "}", "[", "]", ",", ":", "\"", "\\", "/", "u", "0", "1", "-", ".", "e", "E", "+", "n", "t", "f", "null", "alse", "rue", " ", "\n",
        "\x01", "\x7f", "\x80", "\xBF", "\xC3", "\xE2", "\xF0", "\xFF", std::string(1, '\0'), "d83d", "\\ud83d", "\\ude00", "//", "'" };
    return t;
}

inline bool joins(char a, char b) { auto w = [] (char c) { return isalnum((unsigned char) c) || c == '-' || c == '.' || c == '+'; }; return w(a) && w(b); }

struct Doc { std::string text; bool bad, unjudged; jr::J value; };

inline Doc generate(const std::vector<std::string>& pieces, int length, int after, int opts = jr::RDefault, bool separate = false)
{
    Doc d; int extra = -1;
    for (int i = 0; ; ++i) {
        jr::Ref r(d.text, opts); d.value = r.document(); d.bad = r.bad; d.unjudged = r.unjudged;
        bool number = !r.bad && r.p == d.text.size() && (d.value.k == jr::J::Int || d.value.k == jr::J::Float);
        if (extra < 0 && r.bad && !r.eof) extra = after;
        if (!r.bad && !number) return d;                  // complete: what follows isn't part of it
        if (extra == 0 || i >= length) return d;
        int c = vx::choose(pieces.size() + 1, "piece");
        if (c == 0) return d;
        const std::string& p = pieces[c - 1];
        if (separate && !d.text.empty() && joins(d.text.back(), p[0])) d.text += ' ';
        d.text += p; if (extra > 0) extra--;
    }
}

// a document which uses every kind of value
inline const char* rich(int n)
{
    static const char* docs[] = {
        "{\"b\": true, \"i\": -12, \"f\": 1.5e1, \"s\": \"a\\n\\u00e9\xC3\xA9\", \"o\": {\"i\": 3, \"s\": \"x\"}, \"v\": [1, 2], \"m\": {\"k\": 7}}",
        "{\"x\":[null,{\"y\":[[],{}]},false],\"s\":\"\\ud83d\\ude00\\\\\\\"\",\"o\":null,\"i\":9223372036854775807}",
        "[{\"i\":1,\"s\":\"p\"},{\"s\":\"q\"},{\"z\":{\"i\":[0.25,-1E+2]}}]",
        "{\"p\": 4, \"q\": {\"i\": 5, \"s\": \"t\"}, \"sh\": {\"s\": \"u\"}, \"sv\": \"w\", \"vs\": [8, null], \"mp\": {\"k\": {\"i\": 9}}}",
        "{\"vo\": [{\"i\": 1}, null], \"mo\": {\"a\": {\"s\": \"b\"}}, \"vv\": [[], [\"c\", \"\"]], \"mv\": {\"d\": [1, 2.5]}, \"vm\": [{\"e\": false}, {}]}",
    };
    return docs[n];
}
enum { RichDocs = 5 };

// every prefix, every single-byte deletion, replacement and insertion of a text
inline std::string mutate(const std::string& t)
{
    static const char all[] = "{]:\"\\0-, \n\xC3x}[.en\t/\x01\x80\xFF";
    const char* repl = all; size_t n = vx::pick(11, sizeof all);
    int how = vx::choose(5, "mutation"), at = vx::choose(t.size() + (how == 1 || how == 4), "at");
    switch (how) {
    case 0: return t.substr(0, at);
    case 1: { std::string s = t; s.insert(s.begin() + at, repl[vx::choose(n, "insert")]); return s; }
    case 2: { std::string s = t; s.erase(at, 1); return s; }
    case 3: { std::string s = t; s[at] = repl[vx::choose(n, "replace")]; return s; }
    default: { n = 1 + vx::choose(vx::pick(4, 12), "length"); return t.substr(0, at) + t.substr(std::min(t.size(), at + n)); }
    }
}
} // namespace jg
