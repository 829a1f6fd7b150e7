// One instantiation of the simulated world: -DTIME=... -DVAL=... -DMAKE=name
#include "world.h"
std::unique_ptr<IWorld> MAKE(Spec const &s) { return std::unique_ptr<IWorld>(new World<VAL, TIME>(s)); }
