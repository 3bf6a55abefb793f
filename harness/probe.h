// A module that reports its instances to the harness.
#ifndef PROBE_H
#define PROBE_H
#include <lube/module.h>
struct Probe : public libube::Module {
    virtual long step(long add) = 0;         // running sum
    virtual libube::var keep(libube::var v) = 0;   // appends to a list, returns it
    virtual int kind() = 0;
};
extern "C" void vh_probe(int event, int kind, void* self, libube::var* arg);
#endif
