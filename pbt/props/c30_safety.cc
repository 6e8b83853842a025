#include "registry.h"
PROPERTY("C30", "slalib f77_utils", "a library call was made with generated arguments inside its documented domain")
static void one(Gen& g, int fn) {
    const reg::Call k = reg::generate(g, fn);
    const uint64_t fill = g.raw();
    if (g.verbose) g.note("call", reg::describe(k));
    reg::Ctx c(k.args, fill);
    reg::FUNCTIONS[fn].run(c);
    REQUIRE(c.finite, "%s", c.why.c_str());
    REQUIRE(c.inputs_intact(), "an input argument was modified");
}
static const bool registered = [] {
    static std::vector<std::unique_ptr<pbt::Reg>> all;
    for (int f = 0; f < reg::COUNT; f++) all.emplace_back(new pbt::Reg(reg::FUNCTIONS[f].name, 20000, [f](Gen& g) { one(g, f); }, reg::FUNCTIONS[f].name));
    return true;
}();
