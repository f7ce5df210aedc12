// The exit strategy stops training exactly when one of its conditions holds, and says which.
// MC_FLAGS: -O2
#include "ml_ref.hpp"

namespace harness {

using namespace happyml;

static mc::Info info() {
    mc::Info i;
    i.id = "M07";
    i.rule = "all sequences of losses, epoch by epoch until the strategy is done, for every combination of patience, fewest and most epochs, elapsed time and tolerances, compared with a reference state "
             "machine; the reason given must be a condition that holds; state = (configuration, epoch, lowest loss and its epoch, answer)";
    i.bounds_quick = {"54 configurations x all sequences of up to 4 of 10 losses x 5 times at which the time runs out"};
    i.bounds_thorough = {"54 configurations x all sequences of up to 6 of 10 losses x 7 times at which the time runs out"};
    i.assumptions = {"losses and tolerances are exact in binary, so that reaching a limit exactly is distinguished from missing it"};
    return i;
}

struct Config {
    size_t patience, min_epochs, max_epochs;
    float improvement, degradation, zero;
};

static void explore(mc::Ctx &c) {
    std::vector<float> losses{1.f, 0.9375f, 0.875f, 0.5f, 1.5f, 1.25f, 0.0625f, 0.f, INFINITY, NAN};
    std::vector<Config> configs;
    for (size_t p: {1, 2, 3}) for (size_t mn: {0, 1, 3}) for (size_t mx: {2, 4, 100})
        for (int v = 0; v < 2; v++) configs.push_back({p, mn, mx, v ? 0.125f : 0.0625f, v ? 0.5f : 0.25f, v ? 0.0625f : 0.f});
    int depth = c.thorough ? 6 : 4;
    for (auto &g: configs)
        mc::sequences((int) losses.size(), depth, [&](const std::vector<int> &v) {
            for (int late = 0; late <= depth; late++) {
                if (!c.take()) continue;
                std::string d = "patience " + std::to_string(g.patience) + " epochs " + std::to_string(g.min_epochs) + ".." + std::to_string(g.max_epochs) + " tolerances " + mc::show(g.improvement) + "," +
                                mc::show(g.degradation) + "," + mc::show(g.zero) + " time runs out at " + std::to_string(late) + ":";
                for (int l: v) d += " " + mc::show(losses[l]);
                c.desc(d);
                c.run([&] {
                    DefaultExitStrategy s(g.patience, 100, g.max_epochs, g.zero, g.improvement, g.min_epochs, g.degradation);
                    double lowest = INFINITY;
                    size_t lowest_epoch = 0;
                    for (size_t e = 1; e <= v.size(); e++) {
                        double loss = losses[v[e - 1]];
                        int64_t elapsed = (int) e - 1 < late ? 99 : (int) e - 1 == late ? 100 : 101;
                        if (loss + g.improvement <= lowest) {
                            lowest = loss;
                            lowest_epoch = e;
                        }
                        bool too_many = e >= g.max_epochs, worse = (loss - lowest) / lowest >= g.degradation, time = elapsed >= 100, stuck = e - lowest_epoch >= g.patience, zero = loss <= g.zero;
                        bool want = e >= g.min_epochs && (too_many || worse || time || stuck || zero);
                        bool got = s.isDone(e, (float) loss, elapsed);
                        c.transition();
                        c.state(mc::mix((&g - configs.data()) * 64 + e * 8 + got) ^ mc::hash(std::vector<float>{(float) lowest, (float) lowest_epoch, (float) loss}));
                        if (got != want) c.fail_stop("done", "after epoch " + std::to_string(e) + " it is " + (got ? "done" : "not done"));
                        std::string why = s.whyDone(e, (float) loss, elapsed);
                        auto says = [&](const char *x) { return why.find(x) != std::string::npos; };
                        bool early = says("not be done");
                        if (got) {
                            bool right = (too_many && says("Maximum Epochs")) || (worse && says("Maximum Degradation")) || (time && says("Maximum Elapsed")) || (stuck && says("Patience")) || (zero && says("Zero Precision"));
                            if (!right || early) c.fail_stop("reason", "after epoch " + std::to_string(e) + ": " + why);
                            break;
                        }
                        if (e < g.min_epochs && !early) c.fail_stop("reason", "before the fewest epochs: " + why);
                    }
                    c.trace();
                });
            }
        });
}

}

MC_MAIN
