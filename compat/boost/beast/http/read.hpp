// Verification overlay (not part of fitoria): in Boost 1.83 the Asio overload
// async_read(stream, dynamic_buffer, completion_condition, token) is not
// constrained and hijacks beast::http::async_read(stream, buffer, parser&,
// token) when found by ADL.  Boost >= 1.85 constrains it; this more
// specialised overload restores that overload resolution.
#ifndef VERIF_COMPAT_BOOST_BEAST_HTTP_READ_HPP
#define VERIF_COMPAT_BOOST_BEAST_HTTP_READ_HPP
#include_next <boost/beast/http/read.hpp>
#include <boost/beast/http/parser.hpp>
namespace boost { namespace beast { namespace http {
template <class AsyncReadStream, class DynamicBuffer, bool isRequest, class Body, class Allocator, class ReadHandler>
auto async_read(AsyncReadStream& stream, DynamicBuffer& buffer, parser<isRequest, Body, Allocator>& p, ReadHandler&& handler)
{
  return boost::beast::http::async_read(stream, buffer, static_cast<basic_parser<isRequest>&>(p), std::forward<ReadHandler>(handler));
}
}}}
#endif
