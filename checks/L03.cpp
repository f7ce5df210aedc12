// Execution: every sequence of commands, as one script, as a script file and as separate commands of one session, against
// a model made of the effects of single commands, which are themselves checked against the documentation.
#include "lang_exec.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "L03";
    i.rule = "case = sequence of commands; run as one script, as a script file, and one command at a time. Output, errors, result and every file afterwards must equal the composition of the single commands: in order, "
             "stopping behind the first that fails or exits, nothing at all when the script has a syntax error. Single commands: exit reports exit; create dataset creates once and never changes an existing dataset; "
             "a failed command changes no file. state = repository contents, transition = command executed";
    i.bounds_quick = {"all sequences of up to 4 of 13 commands"};
    i.bounds_thorough = {"all sequences of up to 5 of 13 commands"};
    i.case_timeout = 60;
    return i;
}

struct Command {
    std::string text;
    char kind;   // h help, x exit, c create, f fails, s syntax error, p print
    std::string creates;
};

static const std::vector<Command> commands = {
    {"help", 'h', ""}, {"help dataset", 'h', ""}, {"exit", 'x', ""},
    {"create dataset a with given number n at 0 with expected label l at 1 using file://../data/a.csv", 'c', "a"},
    {"create dataset a with header with given label l at 1 with expected number n at 2 using file://../data/test.csv", 'c', "a"},
    {"create dataset b with header with given number n(1,1) at 2 with given label l at 1 using file://../data/test.csv", 'c', "b"},
    {"create dataset b with given number n at 0 using file://../data/missing.csv", 'f', "b"},
    {"create dataset b with given number n at 0 with expected label l at 1 using file://../data/bad.csv", 'f', "b"},
    {"print pretty a", 'p', "a"}, {"print raw b limit 1", 'p', "b"},
    {"execute task t using dataset a", 'f', ""}, {"create task label t using nothing", 'f', ""}, {"create dataset", 's', ""}};

static bool has(const std::string &name) { return std::filesystem::exists("../happyml_repo/datasets/" + name + "/dataset.bin"); }

static Model model;

// checks the effect of single commands
static void judge(mc::Ctx &c, const std::vector<std::string> &state, const Command &k, std::set<std::vector<std::string>> &seen_states) {
    auto &s = model.step(state, k.text);
    fresh_world();
    auto session = new_session();
    for (auto &x: state) observe([&]() { return session->interpretCommands(x, "script"); });
    auto before = snapshot();
    bool had = has(k.creates);
    auto where = "command " + mc::show(k.text) + " after " + mc::show(state) + ": ";
    auto r = command(session, k.text);
    c.check(r == s.o, "session", where + r.show() + " but in a new session " + s.o.show());
    bool created = k.kind == 'c' && !had, exists = (k.kind == 'c' || k.kind == 'f') && !k.creates.empty() && had;
    if (exists) {
        c.check(r.ok() && r.files == before && r.out.find("exist") != std::string::npos, "exists", where + "creating an existing dataset: " + r.show());
        return;
    }
    c.check((r.files != before) == created, "files", where + "before " + before + " after " + r.files);
    c.check(r.exit == (k.kind == 'x'), "exit", where + "exit " + std::to_string(r.exit));
    bool fails = k.kind == 'f' || k.kind == 's' || (k.kind == 'p' && !had);
    c.check(r.ok() == !fails, "result", where + r.show());
    if (created) c.check(has(k.creates), "created", where + "no dataset");
    if (k.kind == 'h' || k.kind == 'p') c.check(fails || !r.out.empty(), "output", where + "no output");
    if (k.kind == 's') c.check(r.out.empty(), "syntax", where + "output " + mc::show(r.out));
    if (seen_states.insert(s.next).second && s.next.size() <= 3) for (auto &n: commands) judge(c, s.next, n, seen_states);
}

static void explore(mc::Ctx &c) {
    if (c.begin("single commands in every state"))
        c.run([&]() {
            std::set<std::vector<std::string>> seen = {{}};
            for (auto &k: commands) judge(c, {}, k, seen);
            auto h = model.step({}, "help").o.out;
            for (auto t: {"dataset", "task"}) {
                auto &one = model.step({}, std::string("help ") + t).o, &more = model.step({}, std::string("help ") + t + "s").o;
                c.check(one == more, "help", std::string("help ") + t + "s: " + more.show() + " but help " + t + ": " + one.show());
            }
            // what is not supported, or not there, is refused and changes nothing
            auto make = commands[3].text;
            model.step({}, make);
            for (auto t: {"create task text t using a", "create task number t using a", "create task image t using a", "create task text t with goal speed using a", "create task label t with goal speed with test b using a",
                          "create task label t with test b using a", "create task label t using b", "execute task a using input (n: 1)", "execute task t using input (n: 1)", "print raw t", "print raw tasks"}) {
                auto before = model.step({}, make).o.files;
                auto o = model.step({make}, t).o;
                auto log = o.files.find("logs/log.txt ");   // of the search for a network
                if (log != std::string::npos) o.files.erase(log, o.files.find(';', log) + 1 - log);
                c.check(!o.ok() && !o.exit && o.files == before, "unsupported", std::string(t) + ": " + o.show() + " files before " + before);
            }
            for (auto t: {"dataset", "task", "future"}) {
                auto o = model.step({}, std::string("help ") + t);
                c.check(o.o.ok() && !o.o.out.empty() && o.o.out != h && lower(o.o.out).find(t) != std::string::npos, "help", std::string("help ") + t + ": " + o.o.show());
            }
        });
    int n = (int) commands.size(), depth = c.thorough ? 5 : 4;
    for (int d = 2; d <= depth; d++) {
        int head = std::min(d, 2);
        mc::sequences(n, head, [&](const std::vector<int> &a) {
            if (!c.take()) return;
            std::vector<std::string> names;
            for (int x: a) names.push_back(commands[x].text);
            c.desc("scripts of " + std::to_string(d) + " commands that start with " + mc::show(names));
            c.run([&]() {
                mc::sequences(n, d - head, [&](const std::vector<int> &b) {
                    auto seq = a;
                    seq.insert(seq.end(), b.begin(), b.end());
                    std::string text;
                    bool syntax = false;
                    for (int x: seq) {
                        text += commands[x].text + "\n";
                        syntax = syntax || commands[x].kind == 's';
                    }
                    // the composition, as a script and as separate commands
                    Outcome script, apart;
                    std::vector<std::string> st;
                    bool running = true;
                    std::vector<std::string> state_script, state_apart;
                    for (int x: seq) {
                        if (running && !syntax) {
                            auto &s = model.step(state_script, commands[x].text);
                            script.out += s.o.out;
                            script.err += s.o.err;
                            script.thrown = s.o.thrown;
                            script.exit = s.o.exit;
                            script.files = s.o.files;
                            state_script = s.next;
                            if (!s.o.ok() || s.o.exit) running = false;
                        }
                        auto &s = model.step(state_apart, commands[x].text);
                        apart.out += s.o.out;
                        apart.err += s.o.err;
                        apart.files = s.o.files;
                        apart.thrown += s.o.thrown;
                        state_apart = s.next;
                        apart.exit = s.o.exit;
                        if (s.o.exit) break;
                    }
                    fresh_world();
                    if (syntax) script.files = snapshot();
                    auto r = command(new_session(), text);
                    c.transition(seq.size());
                    c.trace(2);
                    if (syntax) {
                        if (r.err.empty() || !r.thrown.empty() || r.exit) c.fail("syntax", mc::show(text) + ": " + r.show());
                        script.err = r.err;
                    }
                    if (!(r == script)) c.fail("script", mc::show(text) + ": " + r.show() + " expected " + script.show());
                    c.state(mc::hash(r.files));
                    fresh_world();
                    auto session = new_session();
                    Outcome q;
                    for (int x: seq) {
                        auto s = command(session, commands[x].text);
                        q.out += s.out;
                        q.err += s.err;
                        q.thrown += s.thrown;
                        q.exit = s.exit;
                        q.files = s.files;
                        if (s.exit) break;
                    }
                    if (!(q == apart)) c.fail("session", mc::show(text) + " command by command: " + q.show() + " expected " + apart.show());
                    c.state(mc::hash(q.files));
                    if (d == 2) {
                        fresh_world();
                        mc::spit("script.happyml", text);
                        auto f = observe([&]() { return new_session()->interpretFile("script.happyml"); });
                        bool same = f.out == script.out && f.exit == script.exit && f.files == script.files && f.thrown.empty() == script.thrown.empty();
                        if (!syntax && script.thrown.empty()) same = same && f.err == script.err;
                        if (!same) c.fail("file", mc::show(text) + " as a file: " + f.show() + " expected " + script.show());
                    }
                });
            });
        });
    }
}

}

MC_MAIN
