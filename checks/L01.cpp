// Lexing: every short text over an alphabet with one character of each class, and every pair of words of the language,
// against a reference lexer.
#include "lang_ref.hpp"
#include "lang/happyml_script_init.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "L01";
    i.rule = "case = block of texts; the real lexer's tokens (label, text, offset, length, source) must equal those of a reference lexer: longest match, keywords in any case, words, numbers, strings of "
             "either quote with escaped quotes, comments and white space skipped, nothing else skipped; a text with a character outside the language is refused naming its position. state = distinct token "
             "sequence; transition = one text lexed";
    i.bounds_quick = {"all texts of up to 5 characters over 16 characters", "all pairs of 150 words (every keyword in 3 spellings, cut or extended) x 4 separators", "21 tokens of 15 to 5000 characters between 4 x 4 others"};
    i.bounds_thorough = {"all texts of up to 6 characters over 16 characters", "all triples of words without separator and with a space"};
    return i;
}

static long x_beat = 0;

static void check(mc::Ctx &c, happyml::Lexer &lexer, const std::string &t) {
    std::vector<Tok> want;
    size_t bad = reference(t, want);
    c.transition();
    c.trace();
    auto r = lexer.lex(t, "here");
    auto s = r->getMatchStream();
    auto where = "text " + mc::show(t) + ": ";
    if (bad != std::string::npos) {
        if (s) c.fail_stop("accepted", where + "a text with an unknown character was lexed");
        if (r->getMessage().find("(" + std::to_string(bad) + ")") == std::string::npos || r->getMessage().find("here") == std::string::npos)
            c.fail_stop("position", where + "the error does not name offset " + std::to_string(bad) + ": " + r->getMessage());
        c.state(mc::hash("error " + std::to_string(bad)));
        return;
    }
    if (!s) c.fail_stop("refused", where + r->getMessage());
    mc::u64 h = 7;
    for (auto &w: want) {
        h = mc::hash(w.label, h);
        if (!s->hasNext()) c.fail_stop("tokens", where + "token " + mc::show(w.value) + " is missing");
        auto k = s->next();
        bool dot = w.value == "." && (k->getLabel() == "_dot" || k->getLabel() == "_number");
        if ((k->getLabel() != w.label && !dot) || k->getValue() != w.value || k->getOffset() != w.offset || k->getLength() != w.value.size() || k->isSkip() || k->getSource() != "here")
            c.fail_stop("tokens", where + "got " + k->getLabel() + " " + mc::show(k->getValue()) + " at " + std::to_string(k->getOffset()) + " instead of " + w.label + " " + mc::show(w.value));
    }
    if (s->hasNext()) c.fail_stop("tokens", where + "token " + mc::show(s->next()->getValue()) + " too many");
    c.state(h);
}

static void explore(mc::Ctx &c) {
    auto lexer = happyml::initializeHappymlLexer();
    const std::string alphabet = "aT1._\"'\\# \n(:-\t\xff";
    int deepest = c.thorough ? 6 : 5;
    for (int n = 0; n <= deepest; n++) {
        int head = std::min(n, 3);
        mc::sequences((int) alphabet.size(), head, [&](const std::vector<int> &a) {
            if (!c.take()) return;
            std::string prefix;
            for (int x: a) prefix += alphabet[x];
            c.desc("texts of " + std::to_string(n) + " characters starting with " + mc::show(prefix));
            c.run([&]() {
                mc::sequences((int) alphabet.size(), n - head, [&](const std::vector<int> &b) {
                    auto t = prefix;
                    for (int x: b) t += alphabet[x];
                    check(c, *lexer, t);
                    if ((x_beat++ & 255) == 0) c.beat();
                });
            });
        });
    }
    // long tokens, alone and between others
    std::vector<size_t> lengths = {15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096, 5000};
    if (c.thorough) for (size_t l: {20000, 60000}) lengths.push_back(l);
    for (size_t l: lengths) {
        if (!c.take()) continue;
        c.desc("tokens of " + std::to_string(l) + " characters");
        c.run([&]() {
            auto rep = [&](const std::string &unit, size_t n) { std::string r; while (r.size() < n) r += unit; return r.substr(0, n); };
            std::vector<std::string> tokens = {rep("abcdefghi_", l), rep("1234567890", l), rep("0", l / 2) + "." + rep("7", l - l / 2), rep(" ", l), rep(" \t\n\r", l), "#" + rep("it's \"x\" ", l - 1), rep("with", l), rep("A1", l), rep("a", l - 1) + "_",
                                               "\"" + rep("word 1 ", l - 2) + "\"", "'" + rep("a \\' b ", l / 8 * 8) + "'", "\"" + rep("it's # no comment ", l - 2) + "\"", "'" + rep("\n", l - 2) + "'", "\"" + rep("x", l), rep("((", l), rep("[1,", l),
                                               rep("#\n", l), rep("\\", l), rep("\"\"", l), rep("........", std::min<size_t>(l, 300)), "\"" + rep("\xff", l - 2) + "\""};
            for (auto &t: tokens)
                for (auto before: {"", "help ", "x=", "#\n"})
                    for (auto behind: {"", " to 5", "#x\nlimit", "\n'y'"}) {
                        check(c, *lexer, before + t + behind);
                        c.beat();
                    }
        });
    }
    std::vector<std::string> words;
    for (auto &k: keywords) {
        auto u = k, m = k;
        for (auto &ch: u) ch = toupper(ch);
        m[0] = toupper(m[0]);
        for (auto &w: {k, u, m}) words.push_back(w);
        words.push_back(k.substr(0, k.size() - 1));
        words.push_back(k + "_");
    }
    for (auto w: {"x1", "12.50", "\"a b\"", "'it\\'s'", "\"", "#", "file://../a.csv", "(", ")", "[1,2]", "=", "%", "é"}) words.push_back(w);
    for (auto &a: words) {
        if (!c.take()) continue;
        c.desc("pairs of words starting with " + mc::show(a));
        c.run([&]() {
            for (auto &b: words) {
                for (auto sep: {"", " ", "\n", "# c\n"}) check(c, *lexer, a + sep + b);
                if (c.thorough) {
                    c.beat();
                    for (auto &d: words) check(c, *lexer, a + b + d), check(c, *lexer, a + " " + b + d);
                }
            }
        });
    }
}

}

MC_MAIN
