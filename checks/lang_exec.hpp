// Runs programs of the language in a scratch repository and records everything they show and leave behind.
#ifndef VERIF_LANG_EXEC_HPP
#define VERIF_LANG_EXEC_HPP
#include "lang_ref.hpp"
#include "lang/interpreter.hpp"

namespace harness {

using namespace happyml;

struct Outcome {
    std::string out, err, thrown, files;
    bool exit = false;

    bool operator==(const Outcome &o) const { return out == o.out && err == o.err && thrown == o.thrown && files == o.files && exit == o.exit; }

    bool ok() const { return err.empty() && thrown.empty(); }

    std::string show() const { return "output " + mc::show(out) + " errors " + mc::show(err) + " exception " + mc::show(thrown) + " exit " + std::to_string(exit) + " files " + mc::show(files); }
};

// redirects the standard streams for its lifetime
struct Streams {
    std::stringstream out, err, in;
    std::streambuf *o, *e, *i;

    explicit Streams(const std::string &input = "") : in(input) {
        o = std::cout.rdbuf(out.rdbuf());
        e = std::cerr.rdbuf(err.rdbuf());
        i = std::cin.rdbuf(in.rdbuf());
        std::cin.clear();
    }

    ~Streams() {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
        std::cin.rdbuf(i);
    }
};

// names and contents of every file in the repository and beside the data
static std::string snapshot() {
    std::string s;
    for (auto root: {"../happyml_repo", "../data"})
        for (auto &p: mc::tree(root)) {
            if (p.back() != '/') {
                s += p;
                auto d = mc::slurp(std::string(root) + "/" + p);
                char b[40];
                snprintf(b, sizeof b, " %zu:%08x", d.size(), (unsigned) mc::hash(d));
                s += std::string(b) + ";";
            }
        }
    return s;
}

static void fresh_world() {
    for (auto root: {"../happyml_repo", "../data"}) std::filesystem::remove_all(root);
    std::filesystem::create_directories("../data");
    mc::spit("../data/a.csv", "1,x,5\n2,y,6\n3,x,7\n");
    mc::spit("../data/test.csv", "h1,h2,h3\n10,\"p q\",4\n20,r,2\n");
    mc::spit("../data/bad.csv", "1,x,5\nabc,y,6\n");
}

template<class F>
static Outcome observe(F f, const std::string &input = "") {
    Outcome r;
    {
        Streams s(input);
        try { r.exit = f(); }
        catch (std::exception &e) { r.thrown = std::string("exception ") + e.what(); }
        r.out = s.out.str();
        r.err = s.err.str();
    }
    r.files = snapshot();
    return r;
}

static std::shared_ptr<InterpreterSession> new_session() {
    static auto parser = initializeHappymlParser();
    return std::make_shared<InterpreterSession>(parser);
}

static Outcome command(const std::shared_ptr<InterpreterSession> &s, const std::string &text) {
    return observe([&]() { return s->interpretCommands(text, "script"); });
}

// The effect of one command in one state of the repository, measured by running it alone; a state is the list of commands that changed
// the repository.
class Model {
public:
    struct Step {
        Outcome o;
        std::vector<std::string> next;
    };

    const Step &step(const std::vector<std::string> &state, const std::string &text) {
        auto &m = memo[{state, text}];
        if (!m) {
            fresh_world();
            auto s = new_session();
            for (auto &x: state) observe([&]() { return s->interpretCommands(x, "script"); });
            auto before = snapshot();
            m = std::make_shared<Step>();
            m->o = command(new_session(), text);
            m->next = state;
            if (m->o.files != before) m->next.push_back(text);
        }
        return *m;
    }

private:
    std::map<std::pair<std::vector<std::string>, std::string>, std::shared_ptr<Step>> memo;
};

}

#endif
