#pragma once
#include <boost/asio/basic_file.hpp>
#include <boost/asio/buffer.hpp>
#include <vector>

namespace boost {
namespace asio {

template <typename Executor = any_io_executor>
class basic_stream_file : public basic_file<Executor> {
public:
  using executor_type = Executor;
  using basic_file<Executor>::basic_file;
  basic_stream_file(basic_stream_file&&) = default;
  basic_stream_file& operator=(basic_stream_file&&) = default;

  auto seek(std::int64_t offset, file_base::seek_basis whence) -> std::uint64_t
  {
    boost::system::error_code ec;
    auto n = seek(offset, whence, ec);
    if (ec) throw boost::system::system_error(ec);
    return n;
  }
  auto seek(std::int64_t offset, file_base::seek_basis whence, boost::system::error_code& ec) -> std::uint64_t
  {
    if (fitv::file_control::fail_seek) {
      ec = boost::asio::error::invalid_argument;
      return 0;
    }
    auto r = ::lseek(this->fd_, offset, whence);
    if (r < 0) {
      ec = this->last();
      return 0;
    }
    ec = {};
    return static_cast<std::uint64_t>(r);
  }

  template <typename MutableBufferSequence, typename Token>
  auto async_read_some(const MutableBufferSequence& buffers, Token&& token)
  {
    return async_initiate<Token, void(boost::system::error_code, std::size_t)>(
        [this](auto handler, auto bufs) {
          boost::system::error_code ec;
          std::size_t n = 0;
          using ctl = fitv::file_control;
          if (ctl::fail_read_in >= 0 && ctl::fail_read_in-- == 0) {
            ec = { EIO, boost::asio::error::get_system_category() };
          } else {
            auto at = ::lseek(this->fd_, 0, SEEK_CUR);
            if (at >= 0 && static_cast<std::uint64_t>(at) > ctl::highest) ctl::highest = static_cast<std::uint64_t>(at);
            boost::asio::mutable_buffer b;
            for (auto it = buffer_sequence_begin(bufs); it != buffer_sequence_end(bufs) && b.size() == 0; ++it) b = *it;
            if (b.size() > 0) {
              auto r = ::read(this->fd_, b.data(), std::min<std::size_t>(b.size(), ctl::max_read));
              if (r < 0) ec = this->last();
              else if (r == 0) ec = boost::asio::error::eof;
              else n = static_cast<std::size_t>(r);
            }
          }
          boost::asio::post(this->ex_, boost::asio::append(std::move(handler), ec, n));
        },
        token, buffers);
  }

  template <typename ConstBufferSequence, typename Token>
  auto async_write_some(const ConstBufferSequence& buffers, Token&& token)
  {
    return async_initiate<Token, void(boost::system::error_code, std::size_t)>(
        [this](auto handler, auto bufs) {
          boost::system::error_code ec;
          std::size_t n = 0;
          using ctl = fitv::file_control;
          if (ctl::fail_write_in >= 0 && ctl::fail_write_in-- == 0) {
            ec = { ENOSPC, boost::asio::error::get_system_category() };
          } else {
            boost::asio::const_buffer b;
            for (auto it = buffer_sequence_begin(bufs); it != buffer_sequence_end(bufs) && b.size() == 0; ++it) b = *it;
            if (b.size() > 0) {
              auto r = ::write(this->fd_, b.data(), std::min<std::size_t>(b.size(), ctl::max_write));
              if (r < 0) ec = this->last();
              else n = static_cast<std::size_t>(r);
            }
          }
          boost::asio::post(this->ex_, boost::asio::append(std::move(handler), ec, n));
        },
        token, buffers);
  }
};

}
}
