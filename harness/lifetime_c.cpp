#include "lifetime.h"
static lt::Object c(3);
RTTI_REGISTER { lt::block(3); }
static lt::Object d(4);
