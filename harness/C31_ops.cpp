#define OPS_NS ops
#include "C31.hpp"
#include "ops.hpp"
#include <memory>
static std::vector<ops::Op> table;
static std::vector<std::unique_ptr<ops::Env>> inputs;
static std::vector<Out> digests;
std::size_t ops_count() { return table.size(); }
const char *ops_name(std::size_t o) { return table[o].name; }
int ops_flags(std::size_t o) { return table[o].flags; }
int ops_variants() { return ops::VARIANTS; }
void ops_prepare()
{
    if (!table.empty()) return;
    table = ops::menu();
    for (int v = 0; v < ops::VARIANTS; ++v) {
        inputs.push_back(std::make_unique<ops::Env>(v));
        digests.emplace_back();
        inputs.back()->put(digests.back());
    }
}
int ops_run(std::size_t o, std::size_t v, Out &r)
{
    try {
        table[o].run(*inputs[v], r);
    } catch (const std::exception &) {
        return 1;
    }
    return 0;
}
bool ops_inputs_kept(std::string &why)
{
    for (std::size_t v = 0; v < inputs.size(); ++v) {
        Out o;
        inputs[v]->put(o);
        if (!o.identical(digests[v])) {
            why = difference(o, digests[v]);
            return false;
        }
    }
    return true;
}
