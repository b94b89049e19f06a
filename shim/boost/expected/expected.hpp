// Stand-in for the boost::expected proposal header, which MaidSafe-Common uses but which is not
// installed here.  Only the surface the repository (and its tests) use.
#ifndef VERIF_SHIM_BOOST_EXPECTED_HPP_
#define VERIF_SHIM_BOOST_EXPECTED_HPP_

#include <exception>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>

#include "boost/optional.hpp"
#include "boost/type.hpp"
#include "boost/throw_exception.hpp"

namespace boost {

template <typename E>
class unexpected_type {
 public:
  explicit unexpected_type(const E& e) : error_(e) {}
  explicit unexpected_type(E&& e) : error_(std::move(e)) {}
  const E& value() const { return error_; }
  E& value() { return error_; }

 private:
  E error_;
};

template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}

template <typename E>
class bad_expected_access : public std::logic_error {
 public:
  explicit bad_expected_access(const E& e)
      : std::logic_error("Found an error instead of the expected value."), error_(e) {}
  ~bad_expected_access() noexcept override {}
  const E& error() const { return error_; }

 private:
  E error_;
};

template <typename T, typename E = std::exception_ptr>
class expected {
 public:
  using value_type = T;
  using error_type = E;

  expected() : value_(T()), error_() {}
  expected(const T& v) : value_(v), error_() {}                 // NOLINT
  expected(T&& v) : value_(std::move(v)), error_() {}           // NOLINT
  template <typename G>
  expected(const unexpected_type<G>& u) : value_(), error_(E(u.value())) {}  // NOLINT
  expected(const expected&) = default;
  expected(expected&& o) : value_(std::move(o.value_)), error_(std::move(o.error_)) {}
  expected& operator=(const expected&) = default;

  bool valid() const { return static_cast<bool>(value_); }
  explicit operator bool() const { return valid(); }

  T& value() {
    if (!valid())
      boost::throw_exception(bad_expected_access<E>(*error_));
    return *value_;
  }
  const T& value() const {
    if (!valid())
      boost::throw_exception(bad_expected_access<E>(*error_));
    return *value_;
  }
  const E& error() const { return *error_; }
  E& error() { return *error_; }
  T& operator*() { return *value_; }
  const T& operator*() const { return *value_; }
  T* operator->() { return &*value_; }
  const T* operator->() const { return &*value_; }
  template <typename U>
  T value_or(U&& u) const {
    return valid() ? *value_ : static_cast<T>(std::forward<U>(u));
  }

 private:
  boost::optional<T> value_;
  boost::optional<E> error_;
};

}  // namespace boost

#endif
