// Requests without a server: request lets its http_server build it, so a
// harness that does not include the real one supplies the maker itself.
#pragma once
#include <fitoria/web/request.hpp>
FITORIA_NAMESPACE_BEGIN
namespace web {
class http_server {
public:
  static auto make(std::string path, http::verb m, http::header_map h, any_async_readable_stream body,
                   query_map q = {}, http::version v = http::version::v1_1, path_info pi = {}, state_storage st = {}) -> request
  {
    if (pi.match_path().empty()) pi = path_info(path, path, {});
    return request(connect_info(), std::move(pi), m, v, std::move(h), std::move(q), std::move(body), std::move(st));
  }
};
}
FITORIA_NAMESPACE_END
using sandboxed = FITORIA_NAMESPACE::web::http_server;
