// P07: histories of operations on a tuple
//LIB
#include "vc.h"
#ifdef VC_NATIVE
#include "model.h"
using namespace model;

static void history(bool schema, bool managed, unsigned nf, unsigned items, unsigned bytes, unsigned ops, bool small) {
  world w;
  w.make(schema, managed, nf, items, bytes);
  w.check();
  for (unsigned i = 0; i < ops; ++i)
    w.step(small);
}
VCB(fixed_loose) { history(false, false, 1 + R(10), 1 + R(14), R(300), 60, true); }
VCB(fixed_schema) { history(true, false, 1 + R(12), 1 + R(14), 16 + R(300), 60, true); }
VCB(managed_loose) { history(false, true, 1 + R(14), 1 + R(8), R(100), 80, R() & 1); }
VCB(managed_schema) { history(true, true, 1 + R(14), 1 + R(8), R(100), 80, R() & 1); }
VCB(many_items) { history(R() & 1, true, 6 + R(60), 300, 8000, 200, true); }
#endif
