// MC_FLAGS: -O2
// Texts on their way to a network: tokens, lines, escapes, replacements, one-hot vectors, positions, samples; every small text and every position in a buffer.
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/data_util.hpp"
#include "util/text_embedder.hpp"
#include <random>

static unsigned next_seed = 1;
unsigned int std::random_device::_M_getval() { return next_seed++; }

namespace harness {

using namespace happyml;

static mc::Info info() {
    mc::Info i;
    i.id = "X02";
    i.rule = "case = block of texts over a small alphabet that share their beginning, or one boundary of a buffer, or one encoder setting; each text is cut into tokens (from memory, through the callback, from a file) and judged: "
             "nothing is lost, added or out of order beyond the documented normalisation, and every token has the documented form; lines, replacements and escapes are judged against independent definitions; "
             "one-hot vectors, embeddings, padding and samples are enumerated over all small shapes. state = distinct text or setting; transition = one call";
    i.bounds_quick = {"all texts of up to 6 of {a, 7, space, newline, '.', ',', CR, 0xe9, 0x01}; from files up to 3", "all texts of up to 6 of {a, b, <, _, ~, D, N, >, newline, delimiter} escaped and unescaped",
                      "replacements: all texts up to 8, patterns up to 3 and replacements up to 2 over {a, b}", "21 patterns at bytes 32765..32770 and 65533..65538 of a file", "embedders: 5 lengths x 6 sizes",
                      "samples: all orders of up to 5 texts; sizes to 40 x 5 ratios"};
    i.bounds_thorough = {"texts up to 7", "replacements in texts up to 10"};
    i.case_timeout = 120;
    return i;
}

static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool wordlike(char c) { return digit(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool printable(char c) { return c >= 32 && c < 127; }

// the text that the tokens hold together: without carriage returns, equal blanks in a row only once, one mark for bytes that cannot be printed
static std::string normal(const std::string &text) {
    std::string r;
    char last = 0;
    for (char c: text) {
        if (c == '\r') continue;
        if (blank(c) && c == last) continue;
        last = c;
        r += blank(c) || printable(c) ? c : (char) 254;
    }
    return r;
}

static std::string show_all(const std::vector<std::string> &t) {
    std::string s;
    for (auto &x: t) s += "[" + mc::show(x) + "]";
    return s;
}

// where the tokens begin: at a blank, at a symbol, after a symbol; a point after a digit belongs to the number
static std::vector<std::string> spec_tokens(const std::string &text) {
    std::string n = normal(text);
    std::vector<std::string> r;
    bool alone = true;     // the next character begins a token
    for (size_t i = 0; i < n.size(); i++) {
        char c = n[i];
        bool symbol = printable(c) && !blank(c) && !wordlike(c) && !(c == '.' && i > 0 && digit(n[i - 1]));
        if (alone || blank(c) || symbol) r.emplace_back();
        r.back() += c;
        alone = symbol;
    }
    return r;
}

static void tokens(mc::Ctx &c, const std::string &text, const std::string &where = "") {
    auto t = string_to_tokens(text);
    if (t != spec_tokens(text)) c.fail_key("tokens " + where + mc::show(text), "the tokens are " + show_all(t) + " instead of " + show_all(spec_tokens(text)));
    std::vector<std::string> u;
    std::string token;
    char last = 0;
    for (char ch: text) append_character(ch, last, token, [&](const std::string &x) { u.push_back(x); });
    if (!token.empty()) u.push_back(token);
    if (u != t) c.fail_key("callback " + where + mc::show(text), "the tokens given to the callback are " + show_all(u) + " instead of " + show_all(t));
    c.transition(2);
}

static void put(const std::string &path, const std::string &text) {
    std::ofstream f(path, std::ios::binary);
    f << text;
}

static std::vector<std::string> spec_lines(const std::string &text) {
    std::vector<std::string> r;
    std::string line;
    for (size_t i = 0; i < text.size(); i++) {
        if (text[i] == '\n') { r.push_back(line + "\n"); line.clear(); }
        else {
            line += printable(text[i]) ? text[i] : (char) 254;
            if (i + 1 == text.size()) r.push_back(line + "\n");
        }
    }
    return r;
}

static std::string brief(const std::vector<std::string> &t) {
    std::string s;
    for (size_t i = t.size() > 6 ? t.size() - 6 : 0; i < t.size(); i++) s += "[" + mc::show(t[i].size() > 40 ? t[i].substr(0, 40) : t[i]) + "]";
    return std::to_string(t.size()) + " ending in " + s;
}

static void from_file(mc::Ctx &c, const std::string &text, const std::string &what) {
    put("text.txt", text);
    auto t = load_file_to_tokens("text.txt");
    if (t != spec_tokens(text)) c.fail_key("file-tokens " + what, "the tokens of the file are " + brief(t) + " instead of " + brief(spec_tokens(text)));
    auto l = load_file_to_lines("text.txt");
    if (l != spec_lines(text)) c.fail_key("file-lines " + what, "the lines of the file are " + brief(l) + " instead of " + brief(spec_lines(text)));
    c.transition(2);
}

static std::string replaced(const std::string &text, const std::string &a, const std::string &b) {
    if (a.empty()) return text;
    std::string r;
    for (size_t i = 0; i < text.size();) {
        bool here = i + a.size() <= text.size();
        for (size_t k = 0; here && k < a.size(); k++) here = text[i + k] == a[k];
        if (here) { r += b; i += a.size(); }
        else r += text[i++];
    }
    return r;
}

// all texts over the alphabet with the given beginning, up to a length
template<class F>
static void texts(const std::string &alphabet, const std::string &begin, size_t length, F f) {
    f(begin);
    if (begin.size() < length) for (char ch: alphabet) texts(alphabet, begin + ch, length, f);
}

static void explore(mc::Ctx &c) {
    // tokens
    {
        const std::string alphabet = "a7 \n.,\r\xe9\x01";
        for (char x: alphabet)
            for (char y: alphabet) {
                std::string begin{x, y};
                if (!c.begin("texts that begin with " + mc::show(begin))) continue;
                c.run([&] {
                    if (y == alphabet[0]) { tokens(c, ""); tokens(c, std::string(1, x)); from_file(c, std::string(1, x), mc::show(std::string(1, x))); from_file(c, "", "nothing"); }
                    texts(alphabet, begin, c.thorough ? 7 : 6, [&](const std::string &t) {
                        tokens(c, t);
                        c.state(mc::hash("t" + t));
                        if (t.size() <= 3) from_file(c, t, mc::show(t));
                    });
                    c.trace();
                });
            }
        // every byte between, before and after others
        if (c.begin("every byte")) c.run([&] {
            for (int b = 0; b < 256; b++)
                for (std::string around: {"a", "7", " ", ".", ",", "\xe9", ""}) {
                    std::string t = around + (char) b + around + (char) b;
                    tokens(c, t);
                    tokens(c, std::string(1, (char) b) + around);
                    if (b != 26) from_file(c, t, mc::show(t));
                    c.state(mc::hash("t" + t));
                }
            c.trace();
        });
        for (size_t at: {32768, 65536, 98304})
            for (int shift = -3; shift <= 2; shift++) {
                if (!c.begin("around byte " + std::to_string((long) at + shift) + " of a file")) continue;
                c.run([&] {
                    for (char fill: {'a', '7', ' ', ','})
                        for (std::string p: {"a b", "3.14", "  ", " \n ", "\n\n", "..", "\r\n", "\r", "\xe9\xe9", "a,b", "7", "", " ", "7.", ". ", "\n\r\n", "\x01", "a  \xe9", ",7.", "\n", "ab cd"}) {
                            std::string t;
                            while (t.size() < 300) t += "some words, 3.14 \n";
                            t += std::string(at + shift - t.size(), fill) + p;
                            from_file(c, t, "fill " + mc::show(std::string(1, fill)) + ", " + mc::show(p) + " at " + std::to_string(at + shift));
                            from_file(c, t + "end. of it", "fill " + mc::show(std::string(1, fill)) + ", " + mc::show(p) + " at " + std::to_string(at + shift) + " and more");
                            c.state(mc::hash("f" + t));
                        }
                    c.trace();
                });
            }
        if (c.begin("a file that is not there")) c.run([&] {
            c.check(load_file_to_tokens("absent.txt").empty() && load_file_to_lines("absent.txt").empty(), "absent", "");
            c.trace();
        });
    }
    // escapes
    for (char delimiter: {'\t', ',', '|'}) {
        const std::string alphabet = std::string("ab<_~DN>\n") + delimiter;
        for (char x: alphabet) {
            if (!c.begin("escaped texts that begin with " + mc::show(std::string(1, x)) + ", delimiter " + mc::show(std::string(1, delimiter)))) continue;
            c.run([&] {
                texts(alphabet, std::string(1, x), c.thorough ? 7 : 6, [&](const std::string &t) {
                    std::string e = TextEncoderDecoder::encodeString(t, delimiter);
                    if (e.find(delimiter) != std::string::npos || e.find('\n') != std::string::npos) c.fail_key("escape " + mc::show(t), "the delimiter or a line end remains in " + mc::show(e));
                    std::string d = TextEncoderDecoder::decodeString(e, delimiter);
                    if (d != t) c.fail_key("unescape " + mc::show(t), mc::show(t) + " is escaped as " + mc::show(e) + " and comes back as " + mc::show(d));
                    c.transition(2);
                    c.state(mc::hash("e" + t));
                });
                c.check(TextEncoderDecoder::decodeString(TextEncoderDecoder::encodeString("", delimiter), delimiter).empty(), "unescape nothing", "");
                c.trace();
            });
        }
    }
    // replacements
    for (int n = 0; n <= 3; n++)
        mc::sequences(2, n, [&](const std::vector<int> &p) {
            std::string pattern;
            for (int x: p) pattern += "ab"[x];
            if (!c.begin("replacing " + mc::show(pattern))) return;
            c.run([&] {
                std::vector<std::string> by;
                texts("ab", "", 2, [&](const std::string &t) { by.push_back(t); });
                by.push_back("abab");
                by.push_back("aaaaa");
                texts("ab", "", c.thorough ? 10 : 8, [&](const std::string &t) {
                    for (auto &b: by) {
                        std::string want = replaced(t, pattern, b), got = t;
                        string_replace_all(got, pattern, b);
                        if (got != want) c.fail_key("replace " + t + "/" + pattern + "/" + b, mc::show(got) + " instead of " + mc::show(want));
                        u16string t16(t.begin(), t.end()), p16(pattern.begin(), pattern.end()), b16(b.begin(), b.end()), w16(want.begin(), want.end());
                        for (auto &ch: t16) ch += 0x1100;
                        for (auto &ch: p16) ch += 0x1100;
                        for (auto &ch: b16) ch += 0x1100;
                        for (auto &ch: w16) ch += 0x1100;
                        u16string buffer = u"left over from before";
                        u16string_replace_all_to_buffer(t16, buffer, p16, b16);
                        if (buffer != w16) c.fail_key("replace16 " + t + "/" + pattern + "/" + b, "wrong codes");
                        u16string_replace_all(t16, p16, b16);
                        if (t16 != w16) c.fail_key("replace16 in place " + t + "/" + pattern + "/" + b, "wrong codes");
                        c.transition(3);
                    }
                });
                c.state(mc::hash("r" + pattern));
                c.trace();
            });
        });
    if (c.begin("joined texts and largest codes")) c.run([&] {
        for (int n = 0; n <= 4; n++)
            mc::sequences(3, n, [&](const std::vector<int> &s) {
                std::vector<std::string> parts;
                const std::string kinds[] = {"", "x", "yz"};
                for (int x: s) parts.push_back(kinds[x]);
                for (std::string d: {"", ",", "--"}) {
                    std::string want;
                    for (size_t i = 0; i < parts.size(); i++) want += (i ? d : "") + parts[i];
                    std::string got = join_strings(parts, d);
                    if (got != want) c.fail_key("join " + mc::show(want), mc::show(got));
                    c.transition();
                }
                // 0x7fff and beyond are no codes
                const char16_t codes[] = {0, 0x7ffe, 0x7fff};
                u16string u;
                char16_t most = 0;
                for (int x: s) { u += codes[x]; if (codes[x] < 0x7fff) most = std::max(most, codes[x]); }
                c.check(find_max_16bit_value(u) == most, "largest", std::to_string(find_max_16bit_value(u)));
            });
        c.trace();
    });
    // one-hot vectors
    for (size_t largest: {0, 1, 2, 97, 98, 99, 255, 256, 257, 258, 400}) {
        if (!c.begin("one-hot vectors of " + std::to_string(largest))) continue;
        c.run([&] {
            std::vector<u16string> codes{{}, {97, 98}, {256}, {0, 1, 2, 255, 257, 399, 0x7ffe, 0xffff}, {}, {97}};
            u16string all;
            for (auto &t: codes) all += t;
            auto v = one_hot_encode_bpe_tokens(codes, largest);
            c.check(v.size() == all.size(), "one-hot-count", std::to_string(v.size()) + " vectors for " + std::to_string(all.size()) + " codes");
            for (size_t i = 0; i < v.size() && i < all.size(); i++) {
                bool ok = v[i].size() == largest;
                for (size_t k = 0; ok && k < largest; k++) ok = v[i][k] == (k == all[i] ? 1.0f : 0.0f);
                if (!ok) c.fail_key("one-hot " + std::to_string(largest) + " code " + std::to_string((unsigned) all[i]), "wrong vector");
                c.transition();
            }
            c.state(largest + 7000);
            c.trace();
        });
    }
    if (c.begin("one-hot vectors of all bytes and of words")) c.run([&] {
        std::string every;
        for (int i = 0; i < 256; i++) every += (char) i;
        auto v = one_hot_encode_characters({"", every, "a"});
        c.check(v.size() == 257, "bytes-count", std::to_string(v.size()));
        for (size_t i = 0; i < v.size() && i < 257; i++) {
            bool ok = v[i].size() == 255;
            size_t want = i < 256 ? i : 'a';
            for (size_t k = 0; ok && k < 255; k++) ok = v[i][k] == (k == want ? 1.0f : 0.0f);
            if (!ok) c.fail_key("byte " + std::to_string(i), "wrong vector");
            c.transition();
        }
        for (int n = 0; n <= 4; n++) {
            unordered_map<string, int> index;
            for (int k = 0; k < n; k++) index["word" + std::to_string(k)] = k;
            std::vector<std::string> words{"word0", "unknown", "word2", "", "word3", "word0"};
            auto w = one_hot_encode_words(words, index);
            c.check(w.size() == words.size(), "words-count", std::to_string(w.size()));
            for (size_t i = 0; i < w.size() && i < words.size(); i++) {
                bool ok = (int) w[i].size() == n;
                for (int k = 0; ok && k < n; k++) ok = w[i][k] == (words[i] == "word" + std::to_string(k) ? 1.0f : 0.0f);
                if (!ok) c.fail_key("word " + words[i] + " of " + std::to_string(n), "wrong vector");
                c.transition();
            }
            for (size_t target = 0; target <= 5; target++)
                for (size_t size = 0; size <= 3; size++) {
                    std::vector<std::vector<float>> t;
                    for (int k = 0; k < n; k++) t.emplace_back(size, k + 1.0f);
                    pad_or_truncate_tokens(t, target, size);
                    bool ok = t.size() == target;
                    for (size_t k = 0; ok && k < target; k++) ok = t[k] == std::vector<float>(size, (int) k < n ? k + 1.0f : 0.0f);
                    if (!ok) c.fail_key("pad " + std::to_string(n) + " to " + std::to_string(target), "wrong tokens");
                    c.transition();
                }
        }
        c.trace();
    });
    // positions
    for (size_t length: {1, 2, 3, 7, 40})
        for (size_t size: {1, 2, 3, 8, 9, 300}) {
            if (!c.begin("positions to " + std::to_string(length) + " of size " + std::to_string(size))) continue;
            c.run([&] {
                auto e = make_shared<RotaryPositionalEmbedder>(length, size);
                c.check(e->getSequenceLength() == length && e->getDimensionality() == size, "embedder", "");
                c.check(e->calculate_result_shape() == (std::vector<size_t>{length, size}), "embedder-shape", "");
                c.check(e->get_unknown_token_embedding() == std::vector<float>(size, 0) && e->get_padding_token_embedding() == std::vector<float>(size, 0), "padding-embedding", "");
                auto pos = [&](size_t p, size_t i) {
                    double f = std::exp((double) (i - i % 2) / std::log(10000.0));
                    return i % 2 == 0 ? std::sin(p * std::sin(1.0 / f)) : std::cos(p * std::cos(1.0 / f));
                };
                for (size_t tokens: {size_t(0), size_t(1), length - 1, length, length + 1, length + 5})
                    for (size_t width: {size_t(0), size_t(1), size / 2, size - 1, size}) {
                        std::vector<std::vector<float>> t;
                        for (size_t k = 0; k < tokens; k++) {
                            t.emplace_back(width, 0.0f);
                            if (width) t.back()[k % width] = 1;
                        }
                        auto r = e->embed_tokens(t);
                        c.check(r.size() == std::min(tokens, length), "embedded-count", std::to_string(r.size()) + " of " + std::to_string(tokens));
                        for (size_t k = 0; k < r.size(); k++) {
                            if (r[k].size() != size) { c.fail_key("embedded-size", std::to_string(r[k].size())); break; }
                            for (size_t i = 0; i < size; i++) {
                                double want = i < width ? t[k][i] + pos(k, i) : 0;
                                if (std::fabs(r[k][i] - want) > 1e-4) {
                                    c.fail_key("embedded " + std::to_string(width) + " at " + std::to_string(k) + ", " + std::to_string(i), std::to_string(r[k][i]) + " instead of " + std::to_string(want));
                                    break;
                                }
                            }
                            c.transition();
                        }
                    }
                std::vector<float> one(size, 1.0f), wide(size + 1, 1.0f);
                for (size_t p = 0; p <= length + 2; p++) {
                    bool refused = false;
                    try { e->embed_token(one, p); } catch (const std::exception &) { refused = true; }
                    c.check(refused == (p >= length), "embedder-position", "position " + std::to_string(p) + " of " + std::to_string(length));
                }
                bool refused = false;
                try { e->embed_token(wide, 0); } catch (const std::exception &) { refused = true; }
                c.check(refused, "embedder-width", "a token that is too wide is embedded");
                c.state(length * 1000 + size + 100000);
                c.trace();
            });
        }
    // all together: text to embedded tokens
    if (c.begin("text to embedded tokens")) c.run([&] {
        for (int trained = 0; trained < 2; trained++) {
            auto bpe = make_shared<BytePairEncoderModel>("m", false);
            if (trained) bpe->train({"ab", "ab", " ab", " ab", "cab"});
            for (std::string text: {"", "ab", "ab ab", "a, b. 3.5", "\xe9 ab", "ab ab ab ab ab ab ab ab"}) {
                u16string all;
                for (auto &t: string_to_tokens(text)) all += bpe->encode(t);
                size_t width = bpe->getLargestCode();
                auto e = make_shared<RotaryPositionalEmbedder>(12, width);
                auto got = text_to_tensor_bpe_rotary(text, bpe, e);
                c.check(got.size() == std::min<size_t>(12, all.size()), "text-count", mc::show(text) + ": " + std::to_string(got.size()));
                for (size_t k = 0; k < got.size(); k++) {
                    std::vector<float> hot(width, 0);
                    if (all[k] < width) hot[all[k]] = 1;
                    c.check(got[k] == e->embed_token(hot, k), "text-embedded", mc::show(text) + " code " + std::to_string(k));
                    c.transition();
                }
            }
        }
        c.trace();
    });
    // samples: each text once, in one of the parts, and every order comes up
    for (int n = 0; n <= 5; n++) {
        if (!c.begin("splits of " + std::to_string(n) + " texts")) continue;
        c.run([&] {
            std::vector<std::string> data;
            for (int k = 0; k < n; k++) data.push_back(std::string(1, 'a' + k));
            size_t orders = 1;
            for (int k = 2; k <= n; k++) orders *= k;
            for (float ratio: {0.0f, 0.2f, 0.5f, 1.0f}) {
                std::set<std::string> seen;
                size_t keep = (size_t) (n * ratio);
                for (int tries = 0; tries < 20000 && seen.size() < orders; tries++) {
                    std::vector<std::string> a, b;
                    splitData(data, a, b, ratio);
                    std::string s = join_strings(a) + join_strings(b), sorted = s;
                    std::sort(sorted.begin(), sorted.end());
                    if (sorted != join_strings(data) || b.size() != keep || a.size() + b.size() != data.size()) { c.fail_key("split " + std::to_string(n), show_all(a) + " and " + show_all(b)); break; }
                    auto v = sampleData(data, ratio);
                    std::set<std::string> distinct(v.begin(), v.end());
                    bool ok = v.size() == keep && distinct.size() == keep;
                    for (auto &x: v) ok = ok && std::find(data.begin(), data.end(), x) != data.end();
                    if (!ok) { c.fail_key("sample " + std::to_string(n), show_all(v)); break; }
                    seen.insert(s);
                    c.transition(2);
                    c.state(mc::hash("s" + s));
                }
                c.check(seen.size() == orders, "orders", std::to_string(seen.size()) + " of " + std::to_string(orders) + " orders of " + std::to_string(n) + " texts come up");
            }
            c.trace();
        });
    }
    if (c.begin("sizes of samples")) c.run([&] {
        for (int n = 0; n <= 40; n++)
            for (float ratio: {0.0f, 0.1f, 0.2f, 0.75f, 1.0f}) {
                std::vector<std::string> data, a, b;
                for (int k = 0; k < n; k++) data.push_back("text " + std::to_string(k % 7));    // texts may repeat
                splitData(data, a, b, ratio);
                std::multiset<std::string> before(data.begin(), data.end()), after(a.begin(), a.end());
                after.insert(b.begin(), b.end());
                c.check(before == after && std::fabs((double) b.size() - n * (double) ratio) <= 1, "split-sizes", std::to_string(n) + " texts, ratio " + std::to_string(ratio) + ": " + std::to_string(b.size()));
                c.transition();
            }
        c.trace();
    });
}

}

MC_MAIN
