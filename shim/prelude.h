// Included before every source: standard headers which the sources use without including them.
#ifndef VERIF_SHIM_PRELUDE_H_
#define VERIF_SHIM_PRELUDE_H_
#include <cassert>
#include <memory>
#endif
