#include "lifetime.h"
static lt::Object a(1);
RTTI_REGISTER { lt::block(1); }
