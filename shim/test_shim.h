// Names which newer Boost has dropped and a value which the archived build defines.
#ifndef VERIF_SHIM_TEST_SHIM_H_
#define VERIF_SHIM_TEST_SHIM_H_
#include "boost/filesystem/operations.hpp"
namespace boost {
namespace filesystem {
namespace copy_option {
const copy_options overwrite_if_exists = copy_options::overwrite_existing;
}  // namespace copy_option
}  // namespace filesystem
}  // namespace boost
#define MAIDSAFE_DISABLED_TEST_RETURN_CODE 77
#endif
