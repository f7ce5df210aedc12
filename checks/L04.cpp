// Spelling: white space, line breaks, comments and the case of keywords do not change what a program does.
#include "lang_exec.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "L04";
    i.rule = "case = statement x way of spelling; the statement is executed in every spelling and must have the same output, errors, result and files (execute task shows every input it was given) as in its first spelling. "
             "state = distinct text, transition = text executed";
    i.bounds_quick = {"11 statements x each pair of gaps between tokens x 8 x 8 separators", "every subset of keywords (up to 2^10) x 3 spellings, all at once and one by one"};
    i.bounds_thorough = {"each triple of gaps x 8 separators each for the cheap statements"};
    i.case_timeout = 60;
    return i;
}

struct Base {
    std::string text;
    bool cheap;
};

static const std::vector<Base> bases = {
    {"print pretty a limit 2", true}, {"print raw a", true}, {"help dataset", true}, {"help\nexit", true}, {"exit", true},
    {"execute task nope with label l using input (Color: red, age: 5.5, \"John x\": [\"a b\", c, 3], q: 'it is')", true},
    {"execute task nope using dataset a", true}, {"create task label t with goal speed with test a using nothing", true},
    {"create dataset b with header with given number n(1, 1) at 0 with expected label L at 1 using file://../data/test.csv", false},
    {"create dataset b with given number w(1,3,1) at 0 using file://../data/num.csv\nprint raw b limit 1", false},
    {"create dataset b with expected image i(2) at 1 with given number n at 0 using file://../data/num.csv\nprint pretty b", false}};

static const std::vector<std::string> seps = {" ", "", "  \t", "\n", "\r\n", " # comment: \"x\n", "\n#\n", "\t#exit\r\n\n "};

static bool wordlike(char ch) { return isalnum((unsigned char) ch) || ch == '_' || ch == '.' || ch == '"' || ch == '\''; }

// tokens with whether a gap follows that may hold white space
struct Piece {
    std::string text;
    bool fixed;      // nothing may be put behind it
    bool needs;      // the gap behind must not be empty
};

static std::vector<Piece> pieces(const std::string &text) {
    bool good;
    auto t = lexed(text, good);
    std::vector<Piece> r;
    bool url = false;
    for (size_t i = 0; i < t.size(); i++) {
        bool glued = i + 1 < t.size() && t[i].offset + t[i].value.size() == t[i + 1].offset;
        if (t[i].value == "file") url = true;
        if (url && glued) {
            r.push_back({t[i].value, true, false});
            continue;
        }
        bool was = url;
        url = false;
        r.push_back({t[i].value, i + 1 == t.size(), was || (i + 1 < t.size() && wordlike(t[i].value.back()) && wordlike(t[i + 1].value[0]))});
    }
    return r;
}

static Outcome run_in_world(const Base &b, const std::string &text) {
    if (!b.cheap) std::filesystem::remove_all("../happyml_repo/datasets/b");
    return command(new_session(), text);
}

static void world() {
    fresh_world();
    mc::spit("../data/num.csv", "1,2,3\n4,5,6\n7,8,10\n");
    observe([]() { return new_session()->interpretCommands("create dataset a with given number n at 0 with expected label l at 1 using file://../data/a.csv"); });
}

static void same(mc::Ctx &c, const Base &b, const Outcome &want, const std::string &text) {
    c.transition();
    c.trace();
    c.state(mc::hash(text));
    auto r = run_in_world(b, text);
    if (!(r == want)) {
        // a message may quote the place in the text, which spelling moves
        c.fail("spelling", mc::show(text) + ": " + r.show() + " but " + mc::show(b.text) + ": " + want.show());
        world();
    }
}

static void explore(mc::Ctx &c) {
    for (auto &b: bases) {
        auto p = pieces(b.text);
        size_t n = p.size();
        auto render = [&](const std::vector<std::pair<size_t, int>> &change, const std::string &rest) {
            std::string s;
            for (size_t i = 0; i < n; i++) {
                s += p[i].text;
                if (p[i].fixed) continue;
                std::string sep = rest;
                for (auto &x: change) if (x.first == i) sep = seps[x.second];
                if (p[i].needs && sep.empty()) sep = " ";
                s += sep;
            }
            return s;
        };
        std::vector<size_t> gaps;
        for (size_t i = 0; i < n; i++) if (!p[i].fixed) gaps.push_back(i);
        if (c.begin("all gaps and ends of " + mc::show(b.text)))
            c.run([&]() {
                world();
                auto want = run_in_world(b, b.text);
                if (b.text.substr(0, 7) != "execute" && b.text.substr(0, 11) != "create task" && !want.ok()) c.fail_stop("harness", want.show());
                if (want.out.empty() && want.err.empty()) c.fail_stop("harness", "nothing to see");
                for (auto &s: seps) {
                    same(c, b, want, render({}, s));
                    same(c, b, want, s + render({}, " "));
                    same(c, b, want, render({}, " ") + s);
                    same(c, b, want, s + render({}, s) + s);
                }
                same(c, b, want, render({}, " ") + " # no line break at the end");
            });
        for (size_t x = 0; x < gaps.size(); x++) {
            if (!c.take()) continue;
            c.desc("gap " + std::to_string(x) + " and each other gap of " + mc::show(b.text));
            c.run([&]() {
                world();
                auto want = run_in_world(b, b.text);
                for (size_t y = x; y < gaps.size(); y++)
                    for (int s = 0; s < (int) seps.size(); s++)
                        for (int t = 0; t < (int) seps.size(); t++) {
                            if (x == y && t) continue;
                            if (!b.cheap && !c.thorough && y > x + 1) continue;
                            same(c, b, want, render({{gaps[x], s}, {gaps[y], t}}, " "));
                            if (c.thorough && b.cheap)
                                for (size_t z = y + 1; z < gaps.size(); z++)
                                    for (int u = 1; u < (int) seps.size(); u++) same(c, b, want, render({{gaps[x], s}, {gaps[y], t}, {gaps[z], u}}, " "));
                        }
            });
        }
        // case of keywords
        std::vector<size_t> kw;
        for (size_t i = 0; i < n; i++)
            if ((std::find(keywords.begin(), keywords.end(), p[i].text) != keywords.end() && !(i && p[i - 1].fixed)) || p[i].text == "file") kw.push_back(i);
        for (int style = 0; style < 3; style++) {
            if (!c.take()) continue;
            c.desc("keywords in " + std::string(style == 0 ? "capitals" : style == 1 ? "initial capitals" : "mixed case") + " of " + mc::show(b.text));
            c.run([&]() {
                world();
                auto want = run_in_world(b, b.text);
                auto spell = [&](std::string s) {
                    for (size_t i = 0; i < s.size(); i++) if (style == 0 || (style == 1 && i == 0) || (style == 2 && i % 2)) s[i] = (char) toupper(s[i]);
                    return s;
                };
                size_t m = kw.size(), bits = std::min<size_t>(m, b.cheap || c.thorough ? 10 : 7);
                auto saved = p;
                auto variant = [&](std::function<bool(size_t)> on) {
                    p = saved;
                    for (size_t k = 0; k < m; k++) if (on(k)) p[kw[k]].text = spell(p[kw[k]].text);
                    same(c, b, want, render({}, " "));
                    p = saved;
                };
                for (size_t mask = 0; mask < (1u << bits); mask++) variant([&](size_t k) { return k < bits && (mask >> k & 1); });
                for (size_t k = 0; k < m; k++) variant([&](size_t j) { return j == k; });
                variant([](size_t) { return true; });
            });
        }
    }
}

}

MC_MAIN
