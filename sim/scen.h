// Scenario registry: every scenario is one simulated execution of real library code.
#pragma once
#include "rt.h"

struct Scenario {
    const char *prop;      // property decided
    const char *name;
    void (*fn)();          // body, run as the first simulated thread
    unsigned weight;
    uint64_t step_cap;     // steps after which a run that has not ended counts as a hang (the last 40% fair and fault free)
    bool race;             // report data races
};
void add_scenario(const Scenario &s);
struct ScenReg { ScenReg(const Scenario &s) { add_scenario(s); } };
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SCENARIO(prop, name, weight, cap, race) \
    static void name(); static ScenReg SIM_CAT(reg_, __LINE__)(Scenario{prop, #name, name, weight, cap, race}); static void name()
// the same body registered for a further property
#define ALSO(prop, name, weight, cap, race) static ScenReg SIM_CAT(also_, __LINE__)(Scenario{prop, #name, name, weight, cap, race});
const char *current_prop();   // the property being decided in this run
