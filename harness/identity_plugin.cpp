#define ENTRY plugin_entry
#include "identity_types.h"
