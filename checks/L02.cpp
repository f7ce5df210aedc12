// Parsing: every token sequence that can still become a program, one token beyond, and every small edit of the
// documented statements, against a reference grammar; parsing never throws, and what is refused runs nothing.
#include "lang_ref.hpp"
#include "lang/happyml_script_init.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "L02";
    i.rule = "case = block of texts; a text of the documented grammar must be accepted, one outside the widest reading of the grammar must be refused with a message, and no text may throw, crash or hang. "
             "Texts: the tree of token sequences, extended only where the grammar allows it plus one token beyond; all single and double edits of documented statements. state = (verdict, tokens), transition = text parsed";
    i.bounds_quick = {"token tree over 34 tokens to depth 6", "22 documented statements x every truncation, deletion, doubling, exchange, replacement and insertion of a token", "pairs of documented statements"};
    i.bounds_thorough = {"token tree to depth 7", "the same edits, two at a time"};
    i.assumptions = {"between the documented grammar and its widest reading (any token as a name) either answer is accepted"};
    return i;
}

static const std::vector<std::string> tokens = {"help", "print", "create", "execute", "exit", "raw", "limit", "dataset", "task", "label", "goal", "test", "using", "with", "header", "given", "at",
                                                "input", "x", "3", "1.5", "99999999999", "\"s\"", "(", ")", "[", "]", ":", "/", ",", "file://x.csv", "\"", "future", "."};

static mc::u64 n_beat = 0;

static Verdict check(mc::Ctx &c, Parser &parser, const std::string &text) {
    bool good;
    auto t = lexed(text, good);
    c.transition();
    c.trace();
    if ((n_beat++ & 127) == 0) c.beat();
    int statements = 0;
    Verdict strict = good ? Grammar(t, true).program() : BAD, wide = good ? Grammar(t, false).program(&statements) : BAD;
    bool accepted = false;
    std::string message;
    try {
        auto r = parser.parse(text, "here");
        accepted = r->isSuccessful();
        message = r->getMessage();
        if (accepted && !r->getExecutable()) c.fail("nothing", "text " + mc::show(text) + " is accepted without anything to execute");
        if (!accepted && r->getExecutable()) c.fail("both", "text " + mc::show(text) + " is refused with something to execute");
    } catch (std::exception &e) {
        c.fail("throws", "text " + mc::show(text) + ": " + e.what());
        return BAD;
    }
    if (strict == OK && !accepted) c.fail("refused", "text " + mc::show(text) + " is in the documented language: " + message);
    if (wide != OK && accepted) c.fail("accepted", "text " + mc::show(text) + " is not a program");
    if (!accepted && message.find("here") == std::string::npos) c.fail("message", "text " + mc::show(text) + ": message names no position: " + message);
    mc::u64 h = strict * 3 + wide;
    for (auto &k: t) h = mc::hash(k.label, h);
    c.state(h);
    c.count(accepted ? "accepted" : "refused");
    return wide;
}

static void tree(mc::Ctx &c, Parser &parser, const std::string &prefix, int depth) {
    for (auto &k: tokens) {
        auto text = prefix.empty() ? k : prefix + " " + k;
        auto v = check(c, parser, text);
        if (v != BAD && depth > 1) tree(c, parser, text, depth - 1);
    }
}

static std::vector<std::string> split(const std::string &text) {
    bool good;
    std::vector<std::string> r;
    for (auto &k: lexed(text, good)) {
        bool glued = k.offset > 0 && text[k.offset - 1] != ' ';
        r.push_back((glued ? "" : " ") + k.value);
    }
    return r;
}

static std::string join(const std::vector<std::string> &v) {
    std::string s;
    for (auto &x: v) s += x;
    return s;
}

template<class F>
static void edits(const std::vector<std::string> &v, F f) {
    for (size_t i = 0; i < v.size(); i++) {
        f(std::vector<std::string>(v.begin(), v.begin() + i));
        auto w = v;
        w.erase(w.begin() + i);
        f(w);
        w = v;
        w.insert(w.begin() + i, v[i]);
        f(w);
        if (i + 1 < v.size()) {
            w = v;
            std::swap(w[i], w[i + 1]);
            f(w);
        }
        for (auto &k: tokens) {
            w = v;
            w[i] = " " + k;
            f(w);
            w = v;
            w.insert(w.begin() + i, " " + k);
            f(w);
        }
    }
}

static void explore(mc::Ctx &c) {
    auto parser = initializeHappymlParser();
    int depth = c.thorough ? 7 : 6;
    if (c.begin("the empty text and texts of one token"))
        c.run([&]() {
            check(c, *parser, "");
            for (auto &k: tokens) check(c, *parser, k);
        });
    for (auto &a: tokens)
        for (auto &b: tokens) {
            bool good;
            auto first = lexed(a, good);
            if (Grammar(first, false).program() == BAD) continue;
            auto text = a + " " + b;
            for (auto &k: tokens) {
                if (!c.take()) continue;
                c.desc("texts that start with " + mc::show(text + " " + k));
                c.run([&]() {
                    if (check(c, *parser, text) == BAD) return;
                    if (check(c, *parser, text + " " + k) != BAD) tree(c, *parser, text + " " + k, depth - 3);
                });
            }
        }
    for (auto &d: documented) {
        auto v = split(d);
        if (c.begin("statement " + mc::show(d)))
            c.run([&]() {
                bool good;
                if (Grammar(lexed(d, good), true).program() != OK) c.fail_stop("harness", "the reference grammar refuses " + d);
                check(c, *parser, d);
                edits(v, [&](const std::vector<std::string> &w) { check(c, *parser, join(w)); });
                for (auto &e: documented) check(c, *parser, d + "\n" + e), check(c, *parser, d + " " + e);
            });
        if (c.thorough)
            for (size_t at = 0; at < v.size(); at++)
                for (auto &k: tokens) {
                    if (!c.take()) continue;
                    auto w = v;
                    w[at] = " " + k;
                    c.desc("two edits of " + mc::show(d) + ", one: token " + std::to_string(at) + " becomes " + k);
                    c.run([&]() { edits(w, [&](const std::vector<std::string> &x) { check(c, *parser, join(x)); }); });
                }
    }
}

}

MC_MAIN
