#include "lifetime.h"
RTTI_REGISTER { lt::block(2); }
static lt::Object b(2);
