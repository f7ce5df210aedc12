// The interactive session: every sequence of input lines, with commands broken over lines, against the single commands.
#include "lang_exec.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "L05";
    i.rule = "case = sequence of lines typed into a session; output, errors and files must be those of the commands one after another (a line that ends in a backslash goes on in the next line), whatever comes before: empty "
             "lines, errors, failing commands; exit ends the session and nothing behind it runs. state = repository contents and line, transition = line";
    i.bounds_quick = {"all sequences of up to 4 of 13 lines", "9 commands broken at every subset of their gaps x 3 endings of a broken line"};
    i.bounds_thorough = {"all sequences of up to 5 of 13 lines"};
    i.case_timeout = 60;
    i.assumptions = {"prompts are not judged"};
    return i;
}

static Model model;

// without prompts and the greeting
static std::string plain(std::string s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s.compare(i, 2, "> ") == 0) {
            i++;
            continue;
        }
        r += s[i];
    }
    return r;
}

static std::string greeting;

static void session(mc::Ctx &c, const std::string &input, const std::vector<std::string> &cmds, const std::string &what) {
    Outcome want;
    std::vector<std::string> state;
    fresh_world();
    want.files = snapshot();
    for (auto &x: cmds) {
        auto &s = model.step(state, x);
        want.out += s.o.out;
        want.err += s.o.err;
        if (!s.o.thrown.empty()) want.err += s.o.thrown.substr(10) + "\n";
        want.files = s.o.files;
        state = s.next;
        if (s.o.exit) break;
    }
    fresh_world();
    auto r = observe([&]() { new_session()->interactiveInterpret(); return false; }, input);
    c.transition(cmds.size());
    c.trace();
    c.state(mc::hash(input));
    auto got = plain(r.out), expect = plain(greeting + want.out);
    // an error names its source, which is the session here
    auto source = [](std::string s) {
        for (size_t p; (p = s.find("(cli:")) != std::string::npos;) s.replace(p, 5, "(script:");
        for (size_t p; (p = s.find("cli")) != std::string::npos;) s.replace(p, 3, "script");
        return s;
    };
    if (got != expect || source(r.err) != want.err || r.files != want.files || !r.thrown.empty())
        c.fail("session", what + " typed " + mc::show(input) + ": " + r.show() + " expected " + want.show());
}

struct Line {
    std::string text, command;
    bool more = false;     // goes on in the next line
};

static void explore(mc::Ctx &c) {
    greeting = observe([&]() { new_session()->interactiveInterpret(); return false; }, "").out;
    const std::vector<Line> lines = {
        {"help", "help"}, {"", ""}, {"  \t", ""}, {"exit", "exit"}, {"# note", "# note"}, {"nonsense", "nonsense"}, {"create dataset", "create dataset"}, {"print raw a", "print raw a"},
        {"create dataset a with given number n at 0 using file://../data/a.csv", "create dataset a with given number n at 0 using file://../data/a.csv"},
        {"create dataset b with given number n at 0 using file://../data/bad.csv", "create dataset b with given number n at 0 using file://../data/bad.csv"},
        {"print pretty \\", "print pretty ", true}, {"a limit 1  ", "a limit 1"}, {"help task help \r", "help task help"}};
    int n = (int) lines.size(), depth = c.thorough ? 5 : 4;
    for (int d = 1; d <= depth; d++) {
        int head = std::min(d, 2);
        mc::sequences(n, head, [&](const std::vector<int> &a) {
            if (!c.take()) return;
            std::vector<std::string> names;
            for (int x: a) names.push_back(lines[x].text);
            c.desc(std::to_string(d) + " lines that start with " + mc::show(names));
            c.run([&]() {
                mc::sequences(n, d - head, [&](const std::vector<int> &b) {
                    auto seq = a;
                    seq.insert(seq.end(), b.begin(), b.end());
                    std::vector<std::string> cmds;
                    std::string input, open;
                    for (int x: seq) {
                        input += lines[x].text + "\n";
                        open += lines[x].command;
                        if (lines[x].more) open += "\n";
                        else {
                            cmds.push_back(open);
                            open.clear();
                        }
                    }
                    session(c, input, cmds, "lines");
                    if (d <= 3 && !lines[seq.back()].text.empty()) session(c, input.substr(0, input.size() - 1), cmds, "lines without a last line break");
                });
            });
        });
    }
    // a command on a damaged dataset fails in any way an exception can be thrown; the session goes on
    if (c.begin("damaged datasets"))
        c.run([&]() {
            const std::string bin = "../happyml_repo/datasets/a/dataset.bin";
            const std::string create = "create dataset a with given label l at 1 with expected number n at 0 using file://../data/a.csv";
            fresh_world();
            observe([&]() { return new_session()->interpretCommands(create, "script"); });
            auto good = mc::slurp(bin);
            for (size_t at = 0; at + 8 <= std::min<size_t>(good.size(), 160); at++)
                for (unsigned char byte: {0xff, 0x7f, 0x3f, 0x00}) {
                    auto bad = good;
                    for (size_t i = 0; i < 8; i++) bad[at + i] = (char) (i == 7 ? (byte == 0xff ? 0x7f : byte >> 1) : byte);
                    fresh_world();
                    observe([&]() { return new_session()->interpretCommands(create, "script"); });
                    mc::spit(bin, bad);
                    auto files = snapshot();
                    auto r = observe([&]() { new_session()->interactiveInterpret(); return false; }, "print raw a limit 1\nhelp future\nexit\nhelp task\n");
                    auto help = model.step({}, "help future").o.out, not_run = model.step({}, "help task").o.out;
                    c.transition();
                    c.beat();
                    auto what = "session with byte " + std::to_string(at) + " of a dataset set to " + std::to_string((int) byte) + ": ";
                    if (!r.thrown.empty()) c.fail("ended", what + r.thrown);
                    fresh_world();
                    if (r.out.find(help) == std::string::npos || r.out.find(not_run) != std::string::npos || plain(r.out).size() < help.size()) c.fail("damaged", what + r.show());
                    mc::spit(bin, bad);
                }
        });
    const std::vector<std::string> commands = {
        "help dataset", "exit", "print raw a limit 2", "print pretty a limit 1", "create task label t with goal speed using nothing", "execute task nope using input (x: 1, y: [2, 3])", "execute task t using dataset a",
        "create dataset b with header with given number n at 0 using file://../data/test.csv", "create dataset a with given number n at 0 with expected label l at 1 using file://../data/a.csv"};
    const std::string make = "create dataset a with given number n at 0 using file://../data/a.csv";
    for (auto &k: commands) {
        auto words = std::vector<std::string>();
        std::stringstream ss(k);
        for (std::string w; ss >> w;) words.push_back(w);
        for (auto ending: {"\\", " \\", "\\  \r"}) {
            if (!c.take()) continue;
            c.desc("command " + mc::show(k) + " broken with " + mc::show(ending));
            c.run([&]() {
                size_t gaps = words.size() - 1;
                size_t limit = c.thorough ? 12 : 9;
                for (size_t mask = 0; mask < (1u << std::min(gaps, limit)); mask++) {
                    std::string input = make + "\n", text;
                    for (size_t i = 0; i < words.size(); i++) {
                        input += words[i];
                        if (i == gaps) break;
                        input += i < limit && (mask >> i & 1) ? std::string(ending) + "\n" : i >= limit && mask == 5 ? "\\\n\t" : " ";
                    }
                    session(c, input + "\nhelp\n", {make, k, "help"}, "a broken command");
                }
            });
        }
    }
}

}

MC_MAIN
