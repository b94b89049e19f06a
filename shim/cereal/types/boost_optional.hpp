// Stand-in for the header of the same name in MaidSafe's fork of cereal.
#ifndef VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#define VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_

#include "boost/optional.hpp"
#include "cereal/cereal.hpp"

namespace cereal {

template <class Archive, typename T>
inline void CEREAL_SAVE_FUNCTION_NAME(Archive& ar, const boost::optional<T>& optional) {
  const bool is_init = static_cast<bool>(optional);
  ar(is_init);
  if (is_init)
    ar(*optional);
}

template <class Archive, typename T>
inline void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, boost::optional<T>& optional) {
  bool is_init = false;
  ar(is_init);
  if (is_init) {
    T val;
    ar(val);
    optional = std::move(val);
  } else {
    optional = boost::none;
  }
}

}  // namespace cereal

#endif
