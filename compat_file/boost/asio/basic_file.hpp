// Stand-in for Boost.Asio's basic_file, which needs io_uring: the same
// interface on plain POSIX calls, with short reads, short writes and failures
// that a test can ask for.
#pragma once
#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/async_result.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/file_base.hpp>
#include <boost/asio/post.hpp>
#include <boost/system/system_error.hpp>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <utility>

namespace fitv {
struct file_control {
  static inline std::atomic<std::size_t> max_read { SIZE_MAX };
  static inline std::atomic<std::size_t> max_write { SIZE_MAX };
  static inline std::atomic<int> fail_read_in { -1 }; // number of reads until one fails
  static inline std::atomic<int> fail_write_in { -1 };
  static inline std::atomic<int> fail_seek { 0 };
  static inline std::atomic<int> opened { 0 };
  static inline std::atomic<std::uint64_t> highest { 0 }; // highest offset a read began at
  static void reset()
  {
    max_read = SIZE_MAX;
    max_write = SIZE_MAX;
    fail_read_in = -1;
    fail_write_in = -1;
    fail_seek = 0;
    highest = 0;
  }
};
}

namespace boost {
namespace asio {

template <typename Executor = any_io_executor>
class basic_file : public file_base {
public:
  using executor_type = Executor;
  using native_handle_type = int;

  explicit basic_file(const executor_type& ex)
      : ex_(ex)
  {
  }
  basic_file(const executor_type& ex, const std::string& path, file_base::flags f)
      : ex_(ex)
  {
    open(path, f);
  }
  basic_file(const executor_type& ex, int fd)
      : ex_(ex)
      , fd_(fd)
  {
    ++fitv::file_control::opened;
  }
  basic_file(basic_file&& o) noexcept
      : ex_(o.ex_)
      , fd_(std::exchange(o.fd_, -1))
  {
  }
  basic_file& operator=(basic_file&& o) noexcept
  {
    if (this != &o) {
      shut();
      ex_ = o.ex_;
      fd_ = std::exchange(o.fd_, -1);
    }
    return *this;
  }
  ~basic_file() { shut(); }

  auto get_executor() noexcept -> executor_type { return ex_; }
  auto is_open() const noexcept -> bool { return fd_ >= 0; }
  auto native_handle() -> int { return fd_; }

  void open(const char* path, file_base::flags f)
  {
    boost::system::error_code ec;
    open(path, f, ec);
    if (ec) throw boost::system::system_error(ec);
  }
  void open(const std::string& path, file_base::flags f) { open(path.c_str(), f); }
  auto open(const std::string& path, file_base::flags f, boost::system::error_code& ec) -> boost::system::error_code
  {
    return open(path.c_str(), f, ec);
  }
  auto open(const char* path, file_base::flags f, boost::system::error_code& ec) -> boost::system::error_code
  {
    if (is_open()) return ec = boost::asio::error::already_open;
    auto fd = ::open(path, static_cast<int>(f) | O_CLOEXEC, 0777);
    if (fd < 0) return ec = last();
    fd_ = fd;
    ++fitv::file_control::opened;
    return ec = {};
  }
  void close() { shut(); }
  auto close(boost::system::error_code& ec) -> boost::system::error_code
  {
    shut();
    return ec = {};
  }
  auto size() const -> std::uint64_t
  {
    boost::system::error_code ec;
    auto n = size(ec);
    if (ec) throw boost::system::system_error(ec);
    return n;
  }
  auto size(boost::system::error_code& ec) const -> std::uint64_t
  {
    struct stat s { };
    if (::fstat(fd_, &s)) {
      ec = last();
      return 0;
    }
    ec = {};
    return static_cast<std::uint64_t>(s.st_size);
  }

protected:
  static auto last() -> boost::system::error_code { return { errno, boost::asio::error::get_system_category() }; }
  void shut()
  {
    if (fd_ > 2) ::close(fd_);
    if (fd_ >= 0) --fitv::file_control::opened;
    fd_ = -1;
  }
  Executor ex_;
  int fd_ = -1;
};

}
}
