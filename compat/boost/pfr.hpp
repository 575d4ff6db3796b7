// Verification overlay (not part of fitoria): Boost 1.83 lacks
// boost::pfr::get_name (added in 1.84); this supplies the same facility.
#ifndef VERIF_COMPAT_BOOST_PFR_HPP
#define VERIF_COMPAT_BOOST_PFR_HPP
#include_next <boost/pfr.hpp>
#include <memory>
#include <string_view>
namespace boost { namespace pfr { namespace verif_detail {
template <class T> struct fake_wrapper { const T value; };
template <class T> extern const fake_wrapper<T> fake_object;
template <class P> struct ptr_wrapper { P v; };
template <class P> ptr_wrapper(P) -> ptr_wrapper<P>;
template <auto Ptr> consteval auto name_of() -> std::string_view
{
  std::string_view s = __PRETTY_FUNCTION__;
  // "... [with auto Ptr = ...{(& ...::value.T::field)}; ...]"
  // clang: "... [Ptr = ptr_wrapper<...>{&fake_object.value.field}]"
  auto e = s.rfind(")}");
  if (e == s.npos)
    e = s.rfind('}');
  while (e > 0 && s[e - 1] == ')')
    --e;
  s = s.substr(0, e);
  auto b = s.find_last_of(":.");
  return s.substr(b + 1);
}
}
template <std::size_t I, class T> constexpr auto get_name() -> std::string_view
{
  return verif_detail::name_of<verif_detail::ptr_wrapper {
      std::addressof(detail::sequence_tuple::get<I>(
          detail::tie_as_tuple(verif_detail::fake_object<T>.value))) }>();
}
}}
#endif
