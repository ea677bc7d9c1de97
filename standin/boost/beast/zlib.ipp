// Stand-in for boost/beast/zlib over the system's zlib (raw deflate).
#pragma once
#include <zlib.h>

namespace boost::beast::zlib {
enum class error {
  need_buffers = 1,
  end_of_stream,
  need_dict,
  stream_error,
  invalid_block_type,
  invalid_stored_length,
  too_many_symbols,
  invalid_code_lengths,
  invalid_bit_length_repeat,
  missing_eob,
  invalid_literal_length,
  invalid_distance_code,
  invalid_distance,
  over_subscribed_length,
  incomplete_length_set,
  general
};
namespace standin {
struct zlib_category_t : std::error_category {
  const char* name() const noexcept override
  {
    return "boost.beast.zlib";
  }
  std::string message(int v) const override
  {
    static constexpr const char* texts[]
        = { "", "need buffers", "unexpected end of deflate stream", "need dict",
            "stream error" };
    return v > 0 && v < 5 ? texts[v] : "beast.zlib error";
  }
};
inline const std::error_category& zlib_category()
{
  static zlib_category_t c;
  return c;
}
}
inline std::error_code make_error_code(error e)
{
  return { static_cast<int>(e), standin::zlib_category() };
}
}
template <>
struct std::is_error_code_enum<boost::beast::zlib::error> : std::true_type { };

namespace boost::beast::zlib {
enum class Flush { none, block, partial, sync, full, finish, trees };
struct z_params {
  const void* next_in = nullptr;
  std::size_t avail_in = 0;
  std::size_t total_in = 0;
  void* next_out = nullptr;
  std::size_t avail_out = 0;
  std::size_t total_out = 0;
  int data_type = 0;
};
namespace standin {
inline int native(Flush f)
{
  constexpr int m[] = { Z_NO_FLUSH,   Z_BLOCK,  Z_PARTIAL_FLUSH, Z_SYNC_FLUSH,
                        Z_FULL_FLUSH, Z_FINISH, Z_TREES };
  return m[static_cast<int>(f)];
}
template <bool Deflate>
class raw_stream {
  struct state {
    z_stream z {};
    state()
    {
      if constexpr (Deflate) {
        ::deflateInit2(&z, 6, Z_DEFLATED, -15, 4, Z_DEFAULT_STRATEGY);
      } else {
        ::inflateInit2(&z, -15);
      }
    }
    ~state()
    {
      Deflate ? ::deflateEnd(&z) : ::inflateEnd(&z);
    }
    state(const state&) = delete;
  };
  std::unique_ptr<state> s_ = std::make_unique<state>();

public:
  void write(z_params& p, Flush f, error_code& ec)
  {
    auto& z = s_->z;
    z.next_in = static_cast<unsigned char*>(const_cast<void*>(p.next_in));
    z.avail_in = static_cast<unsigned>(p.avail_in);
    z.next_out = static_cast<unsigned char*>(p.next_out);
    z.avail_out = static_cast<unsigned>(p.avail_out);
    int r = Deflate ? ::deflate(&z, native(f)) : ::inflate(&z, native(f));
    p.next_in = z.next_in;
    p.avail_in = z.avail_in;
    p.next_out = z.next_out;
    p.avail_out = z.avail_out;
    p.total_in = z.total_in;
    p.total_out = z.total_out;
    switch (r) {
    case Z_OK:
      ec = {};
      break;
    case Z_STREAM_END:
      ec = make_error_code(error::end_of_stream);
      break;
    case Z_BUF_ERROR:
      ec = make_error_code(error::need_buffers);
      break;
    case Z_NEED_DICT:
      ec = make_error_code(error::need_dict);
      break;
    case Z_STREAM_ERROR:
      ec = make_error_code(error::stream_error);
      break;
    default:
      ec = make_error_code(error::invalid_block_type);
    }
  }
  void clear()
  {
    s_ = std::make_unique<state>();
  }
  void reset()
  {
    clear();
  }
};
}
using deflate_stream = standin::raw_stream<true>;
using inflate_stream = standin::raw_stream<false>;
}
