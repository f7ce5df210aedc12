// MC_FLAGS: -O1
// What a statement says in strings, names and places arrives as it was written: every short string, name and location.
#include "task_ref.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "L06";
    i.rule = "strings: a task whose labels are all short strings over letters, both quotes, backslash, blank, line end and the punctuation of the language is executed with the literal of each (either quote, alone and in a "
             "list), and must answer with the category of exactly that string; the same strings as names of columns. Places: every sequence of fragments (keywords, words, numbers, separators) as path of a file, alone "
             "and followed by another statement: the dataset has the rows of exactly that file and the next statement is executed. Names of datasets: every such name is a dataset of its own. state = distinct statement; transition = statement executed";
    i.bounds_quick = {"strings of up to 3 characters over 10", "paths of up to 3 fragments out of 18, followed by 5 kinds of text", "pairs of 24 names"};
    i.bounds_thorough = {"strings of up to 4 characters", "paths of up to 4 fragments"};
    i.assumptions = {"a string that holds its own quote behind a backslash, or ends in a backslash, cannot be written in the language"};
    i.case_timeout = 120;
    return i;
}

static std::string literal(const std::string &s, char q) {
    std::string r(1, q);
    for (char ch: s) {
        if (ch == q) r += '\\';
        r += ch;
    }
    return r + q;
}

static bool writable(const std::string &s, char q) {
    if (!s.empty() && s.back() == '\\') return false;
    for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '\\' && s[i + 1] == q) return false;
    return true;
}

static Kind labels_of(std::vector<std::string> l) { return label(std::move(l)); }

// a task that answers with the position of the label it was given
static void echo_task(mc::Ctx &c, const std::vector<std::string> &strings, const std::string &name) {
    std::filesystem::remove_all("../happyml_repo");
    std::filesystem::create_directories(tasks);
    std::filesystem::create_directories(datasets);
    size_t n = strings.size();
    auto b = neuralNetworkBuilder(OptimizerType::sgd)->setModelName("t")->setModelRepo(tasks)->setLossFunction(LossType::mse);
    b->addInputLayer(std::vector<size_t>{1, n, 1}, n, LayerType::full, ActivationType::linear)->addOutputLayer({1, n, 1}, ActivationType::linear);
    auto net = b->build();
    net->setSilentMode(true);
    net->saveWithOverwrite();
    int square = 0;
    for (auto &f: mc::tree(tasks + "t")) {
        if (f.size() < 7 || f.substr(f.size() - 7) != ".tensor") continue;
        FullTensor old(tasks + "t/" + f);
        size_t R = old.rowCount(), C = old.columnCount();
        std::vector<std::vector<std::vector<float>>> x(1, std::vector<std::vector<float>>(R, std::vector<float>(C, 0.f)));
        if (R == C && (R > 1 || f.find("bias") == std::string::npos)) {
            square++;
            for (size_t i = 0; i < R; i++) x[0][i][i] = 1;
        }
        tensor(x)->save(tasks + "t/" + f);
    }
    if (square < 2) c.fail_stop("harness", "weights not found: " + mc::show(mc::tree(tasks + "t")));
    std::vector<std::string> answers;
    for (size_t i = 0; i < n; i++) answers.push_back("L" + std::to_string(i));
    BinaryDatasetWriter w(tasks + "t/dataset.bin", {make(labels_of(strings), name)}, {make(labels_of(answers), "answer")});
    w.close();
}

static void answer(mc::Ctx &c, const std::string &text, const std::string &want) {
    auto o = quiet(text);
    c.transition();
    c.trace();
    c.state(mc::hash(text));
    auto t = table(o.out);
    if (!o.ok()) c.fail("refused", mc::show(text) + ": " + o.show());
    else if (t.size() != 2 || t[1].size() != 1 || t[1][0] != want) c.fail("another string", mc::show(text) + " answers " + (t.size() > 1 ? mc::show(t[1]) : mc::show(o.out)) + " instead of " + want);
}

static void strings(mc::Ctx &c) {
    const std::string al = "aZ1\"'\\ \n,)";
    std::vector<std::string> all;
    for (int n = 0; n <= (c.thorough ? 4 : 3); n++)
        mc::sequences((int) al.size(), n, [&](const std::vector<int> &v) {
            std::string s;
            for (int k: v) s += al[k];
            if (writable(s, '"') || writable(s, '\'')) all.push_back(s);
        });
    for (auto s: {"# no comment", "true", "Task", "using", "(x: 1)", "[1, 2]", "file://x", "a\tb", "1.50", "1e5", "-1", "\\n", "\\\\x", "\\\\\\x", "it's \"so\" 'and' \"\"", "\xc3\xa9", "<~D>"}) all.push_back(s);
    size_t per = 40;
    for (size_t from = 0; from < all.size(); from += per) {
        std::vector<std::string> some(all.begin() + from, all.begin() + std::min(all.size(), from + per));
        if (!c.take()) continue;
        c.desc("strings from " + mc::show(some[0]) + " to " + mc::show(some.back()));
        c.run([&]() {
            echo_task(c, some, "k");
            for (size_t i = 0; i < some.size(); i++)
                for (char q: {'"', '\''}) {
                    if (!writable(some[i], q)) continue;
                    c.beat();
                    auto l = literal(some[i], q), want = "L" + std::to_string(i);
                    answer(c, "execute task t using input (k: " + l + ")", want);
                    answer(c, "execute task t using input (\"k\": [" + l + "])", want);
                }
        });
    }
    for (auto &s: all) {
        if (s.size() > 2 && s.size() < 4 && !c.thorough) continue;
        if (s.size() == 4 && c.thorough) continue;
        if (!c.begin("name of a column " + mc::show(s))) continue;
        c.run([&]() {
            echo_task(c, {"x", "y"}, s);
            for (char q: {'"', '\''})
                if (writable(s, q)) {
                    answer(c, "execute task t using input (" + literal(s, q) + ": y)", "L1");
                    auto other = s + "a";
                    auto o = quiet("execute task t using input (" + literal(other, '"') + ": y)");
                    c.transition();
                    if (writable(other, '"') && o.ok()) c.fail("another name", "a value for " + mc::show(other) + " is taken for " + mc::show(s));
                }
        });
    }
}

static void places(mc::Ctx &c) {
    static const std::vector<std::string> al = {"print", "Raw", "exit", "create", "dataset", "using", "with", "x", "A_b", "q7", "12", "1.5", "_", "/", "\\", ".", ":", "data"};
    for (int n = 1; n <= (c.thorough ? 4 : 3); n++)
        mc::sequences((int) al.size(), n, [&](const std::vector<int> &v) {
            if (!c.take()) return;
            std::string p;
            for (int k: v) p += al[k];
            c.desc("path " + mc::show(p));
            c.run([&]() {
                if (p.find("..") != std::string::npos || p.find("//") != std::string::npos || p.back() == '/' || p.back() == '.') return;
                std::string place = "../data/" + (p[0] == '/' ? p.substr(1) : p) + ".csv";
                int turn = 0;
                for (std::string tail: {"", "\nprint raw ds", " print raw ds", "\nexit", " # comment"}) {
                    std::filesystem::remove_all("../happyml_repo");
                    std::filesystem::remove_all("../data");
                    std::filesystem::create_directories(std::filesystem::path(place).parent_path());
                    mc::spit(place, "first\nsecond\n");
                    if (place != "../data/.csv") mc::spit("../data/.csv", "other\nfile\n");
                    auto text = "create dataset ds with given label n at 0 using file://" + place + tail;
                    auto o = quiet(text);
                    c.transition();
                    c.trace();
                    c.state(mc::hash(text));
                    if (!o.ok()) c.fail_stop("refused", mc::show(text) + ": " + o.show());
                    BinaryDatasetReader rd(datasets + "ds/dataset.bin");
                    auto l = rd.get_given_metadata(0)->ordered_labels;
                    std::sort(l.begin(), l.end());
                    if (l != std::vector<std::string>{"first", "second"}) c.fail_stop("another file", mc::show(text) + " read " + mc::show(l));
                    bool print = turn == 1 || turn == 2;
                    if (o.exit != (turn == 3)) c.fail_stop("next statement", mc::show(text) + (o.exit ? " ended" : " did not end") + " the session");
                    if (print != (std::count(o.out.begin(), o.out.end(), '|') == 0 && o.out.find(" 0") != std::string::npos && o.out.find("n\n") != std::string::npos && o.out.find('1', o.out.rfind("n\n")) != std::string::npos))
                        c.fail_stop("next statement", mc::show(text) + (print ? " printed no rows: " : " printed rows: ") + mc::show(o.out));
                    turn++;
                }
            });
        });
}

static void names(mc::Ctx &c) {
    static const std::vector<std::string> al = {"a", "A", "aa", "aA", "a_", "a__b", "a1", "a11", "printer", "print1", "Print_", "exits", "raw_", "tasks1", "labels", "at1", "to_", "texts", "inputs", "x_using", "dataset1", "withx", "limits", "Q7_z"};
    for (auto &x: al)
        for (auto &y: al) {
            if (!c.begin("datasets " + x + " and " + y)) continue;
            c.run([&]() {
                std::filesystem::remove_all("../happyml_repo");
                std::filesystem::remove_all("../data");
                std::filesystem::create_directories("../data");
                mc::spit("../data/1.csv", "one\n");
                mc::spit("../data/2.csv", "two\n");
                auto make = [&](const std::string &name, const std::string &file, const std::string &column) {
                    c.transition();
                    return quiet("create dataset " + name + " with given label " + column + " at 0 using file://../data/" + file);
                };
                auto o = make(x, "1.csv", y);
                if (!o.ok()) c.fail_stop("refused", "name " + x + " or column " + y + ": " + o.show());
                auto p = make(y, "2.csv", x);
                c.state(mc::hash(x + " " + y));
                c.trace();
                if (!p.ok()) c.fail_stop("refused", "name " + y + ": " + p.show());
                for (auto &z: {x, y}) {
                    auto q = quiet("print pretty " + z);
                    c.transition();
                    bool first = z == x;
                    auto &column = first ? y : x;
                    if (!q.ok() || q.out.find(first ? "one" : "two") == std::string::npos || q.out.find(first ? "two" : "one") != std::string::npos || q.out.find(column) == std::string::npos)
                        c.fail_stop("another dataset", "print pretty " + z + ": " + q.show());
                    if (x == y) break;
                }
            });
        }
}

static void explore(mc::Ctx &c) {
    strings(c);
    places(c);
    names(c);
}

}

MC_MAIN
