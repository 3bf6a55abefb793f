#include "probe.h"
using namespace libube;

#if PROBE <= 2
struct ProbeImpl : public Probe {
    long sum = 0;
    var list;
    char* buffer;
    ProbeImpl(var a) { buffer = new char[100 + 50 * PROBE]; vh_probe(1, PROBE, this, &a); if (a.defined() && a.atype() == TYPE_CHAR && a == "throw") { delete[] buffer; vh_probe(-1, PROBE, this, 0); throw std::runtime_error("probe"); } }
    ~ProbeImpl() { vh_probe(-1, PROBE, this, 0); delete[] buffer; }
    long step(long add) override { buffer[0] = 1; return sum += add * PROBE; }
    var keep(var v) override { list.push(v); return list; }
    int kind() override { return PROBE; }
};
namespace libube { void factory(Module** m, var a) { *m = new ProbeImpl(a); } }
#elif PROBE == 3
extern "C" int nofactory() { return 3; }
#elif PROBE == 4
namespace libube { void factory(Module** m, var a) { vh_probe(0, PROBE, 0, &a); } }
#endif
