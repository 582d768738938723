#include "plan.h"
namespace sim {
extern const Scenario SC_MAP, SC_CONC, SC_CRASH, SC_ASYNC, SC_WLOCK, SC_MULTI, SC_FAULT, SC_LRU, SC_JEM;
std::vector<Scenario> SCENARIOS = { SC_MAP, SC_CONC, SC_CRASH, SC_ASYNC, SC_WLOCK, SC_MULTI, SC_FAULT, SC_LRU, SC_JEM };
std::vector<PropDef> PROPS = {
    { "C01", { { "map", 1 } }, 10000000, 100000000 },
    { "C02", { { "map", 1 } }, 10000000, 100000000 },
    { "C24", { { "map", 1 } }, 10000000, 100000000 },
    { "C03", { { "crash", 1 } }, 10000000, 100000000 },
    { "C04", { { "crash", 1 } }, 10000000, 100000000 },
    { "C18", { { "crash", 1 } }, 10000000, 100000000 },
    { "C19", { { "crash", 1 } }, 10000000, 100000000 },
    { "C05", { { "conc", 1 } }, 10000000, 100000000 },
    { "C06", { { "conc", 1 } }, 10000000, 100000000 },
    { "C07", { { "conc", 1 } }, 10000000, 100000000 },
    { "C08", { { "async", 1 } }, 10000000, 100000000 },
    { "C10", { { "wlock", 1 } }, 10000000, 100000000 },
    { "C17", { { "wlock", 1 } }, 10000000, 100000000 },
    { "C15", { { "map", 1 } }, 10000000, 100000000 },
    { "C12", { { "multi", 1 } }, 10000000, 100000000 },
    { "C23", { { "multi", 1 } }, 10000000, 100000000 },
    { "C13", { { "fault", 1 } }, 10000000, 100000000 },
    { "C16", { { "fault", 1 } }, 10000000, 100000000 },
    { "C11", { { "lru", 1 } }, 10000000, 100000000 },
    { "C14", { { "jem", 1 } }, 10000000, 100000000 },
    { "C09", { { "conc", 1 } }, 10000000, 100000000 },
};
}
