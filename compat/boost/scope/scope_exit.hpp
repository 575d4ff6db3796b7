// Verification overlay (not part of fitoria): Boost 1.83 lacks Boost.Scope;
// only the repository's own tests use it.
#pragma once
#include <utility>
namespace boost { namespace scope {
template <class F> struct scope_exit_t { F f; ~scope_exit_t() { f(); } };
template <class F> auto make_scope_exit(F f) -> scope_exit_t<F> { return { std::move(f) }; }
}}
