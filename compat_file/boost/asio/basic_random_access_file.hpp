#pragma once
#include <boost/asio/any_io_executor.hpp>

namespace boost {
namespace asio {
template <typename Executor = any_io_executor>
class basic_random_access_file;
}
}
