// Serialization through bounded queues of chunks.
// pv-assume: absl::Mutex, std::thread and the protocol buffer interfaces are replaced by contracts (rt/mt.hpp, rt/pb.hpp)
// pv-assume: threads interleave at the granularity of the critical sections
// pv-bounded: * chunks of 1 to 3 bytes, 3 to 5 chunks, messages of 0 to 8 bytes of arbitrary contents; all interleavings
// pv-opt: * exec_limit=600 max_paths=200000 max_steps=200000000
#include "mt.hpp"
#include "pb.hpp"
#include <vector>
#include "base/pull_serializer.hpp"
#include "base/push_deserializer.hpp"
using namespace principia::base::_array;
using namespace principia::base::_not_null;
using namespace principia::base::_pull_serializer;
using namespace principia::base::_push_deserializer;
using principia::base::_pull_serializer::internal::DelegatingArrayOutputStream;
using principia::base::_push_deserializer::internal::DelegatingArrayInputStream;
namespace {
using Bytes = Array<std::uint8_t>;
struct Nm { char s[16]; };
Nm nm(const char* p, int const i) { Nm r; int n = 0; for (; *p; ++p) r.s[n++] = *p; r.s[n++] = '0' + i / 10; r.s[n++] = '0' + i % 10; r.s[n] = 0; return r; }
// 0 to n - 1, one path for each.
int choose(const char* const name, int const n) { for (int i = 0; i < n - 1; ++i) if (vc_fork(vc_bool(name))) return i; return n - 1; }
std::uint8_t message[16];
void make_message(int const n) { for (int i = 0; i < n; ++i) message[i] = vc_u8(nm("m", i).s); }
// Expands the data by one byte.
struct Expander : google::compression::Compressor {
  std::size_t Compress(const std::string&, std::string*) override { return 0; }
  bool Uncompress(const std::string&, std::string*) override { return false; }
  std::size_t CompressStream(google::compression::Source* r, google::compression::Sink* w) override {
    vc_assert(vc_mt::locks_held == 0, "compression does not hold the lock");
    std::size_t const total = r->Available(); std::size_t n;
    char const header = static_cast<char>(0xA0 + total);
    w->Append(&header, 1);
    char const* p = r->Peek(&n);
    ENSURE(n == total);
    for (std::size_t i = 0; i < n; ++i) { char const c = p[i] ^ 0x5A; w->Append(&c, 1); }
    r->Skip(n);
    ENSURE(r->Available() == 0);
    return total + 1;
  }
  bool UncompressStream(google::compression::Source* r, google::compression::Sink* w) override {
    std::size_t n; char const* p = r->Peek(&n);
    if (n < 1 || p[0] != static_cast<char>(0xA0 + n - 1)) return false;
    for (std::size_t i = 1; i < n; ++i) { char const c = p[i] ^ 0x5A; w->Append(&c, 1); }
    r->Skip(n);
    return true;
  }
  std::size_t MaxCompressedLength(std::size_t n) override { return n + 1; }
};
}
// ---- Output stream: what reaches the callback is what was written.
namespace { std::vector<std::uint8_t> received; std::uint8_t buffers[2][4]; int current_buffer = 0; int buffer_size; }
F_SPEC(output_stream) {
  buffer_size = 1 + choose("size", 3);
  received.clear();
  DelegatingArrayOutputStream s(Bytes(buffers[0], buffer_size), [](Bytes const b) {
    ENSURE(b.data == buffers[current_buffer]); ENSURE(b.size > 0); ENSURE(b.size <= buffer_size);
    for (std::int64_t i = 0; i < b.size; ++i) received.push_back(b.data[i]);
    current_buffer ^= 1;
    return Bytes(buffers[current_buffer], buffer_size);
  });
  int written = 0;
  ENSURE(s.ByteCount() == 0);
  for (int step = 0; step < 4; ++step) {
    void* d; int n = -1;
    ENSURE(s.Next(&d, &n));
    ENSURE(n > 0); ENSURE(n <= buffer_size);
    ENSURE(d >= buffers[current_buffer] && static_cast<std::uint8_t*>(d) + n == buffers[current_buffer] + buffer_size);
    ENSURE(s.ByteCount() == written + n);
    int back = choose("back", n + 2) - 1;  // -1 for no back up.
    int const kept = back < 0 ? n : n - back;
    for (int i = 0; i < n; ++i) static_cast<std::uint8_t*>(d)[i] = i < kept ? message[(written + i) % 16] = vc_u8(nm("w", written + i).s) : 0xEE;
    written += kept;
    if (back >= 0) {
      s.BackUp(back);
      ENSURE(static_cast<int>(received.size()) == written);  // All that was written was handed over.
    }
    ENSURE(s.ByteCount() == written);
    ENSURE(static_cast<int>(received.size()) <= written); ENSURE(static_cast<int>(received.size()) >= written - buffer_size);
    for (int i = 0; i < static_cast<int>(received.size()); ++i) ENSURE(received[i] == message[i]);
  }
}
F_SPEC(output_stream_back_up) {
  std::int32_t const count = vc_i32("count");
  DelegatingArrayOutputStream s(Bytes(buffers[0], 3), [](Bytes const b) { return Bytes(buffers[1], 3); });
  bool const next = vc_fork(vc_bool("next"));
  void* d; int n;
  if (next) s.Next(&d, &n);
  vc_may_abort(1);
  s.BackUp(count);
  ENSURE(next); ENSURE(0 <= count && count <= 3);
  ENSURE(s.ByteCount() == 3 - count);
}
// ---- Input stream: what is read is what the callback provided.
namespace { int provided = 0, blocks = 0, total = 0; }
F_SPEC(input_stream) {
  provided = blocks = 0;
  make_message(8);
  DelegatingArrayInputStream s([]() {
    ++blocks;
    if (blocks > 2) return Bytes(nullptr, 0);
    int const n = 1 + choose("block", 2);
    Bytes const b(message + provided, n);
    provided += n;
    return b;
  });
  int read = 0; bool ended = false;
  ENSURE(s.ByteCount() == 0);
  for (int step = 0; step < 3; ++step) {
    if (vc_fork(vc_bool("skip"))) {
      int const n = choose("skipped", 4);
      int const before = read;
      bool const ok = s.Skip(n);
      if (ok) { read += n; ENSURE(read <= provided); }
      else { ENSURE(before + n > provided); ENSURE(blocks >= 3); read = provided; ended = true; }
    } else {
      void const* d; int n = -1;
      bool const ok = s.Next(&d, &n);
      if (ok) {
        ENSURE(!ended); ENSURE(n > 0); ENSURE(d == message + read); ENSURE(read + n == provided);
        for (int i = 0; i < n; ++i) ENSURE(static_cast<std::uint8_t const*>(d)[i] == message[read + i]);
        read += n;
        ENSURE(s.ByteCount() == read);
        int const back = choose("back", n + 1);
        if (back > 0) { s.BackUp(back); read -= back; }
      } else { ENSURE(read == provided); ENSURE(blocks >= 3); ended = true; }
    }
    ENSURE(s.ByteCount() == read);
    if (ended) break;
  }
}
F_SPEC(input_stream_back_up) {
  std::int32_t const count = vc_i32("count");
  make_message(3);
  DelegatingArrayInputStream s([]() { return Bytes(message, 3); });
  int const before = choose("before", 3);
  void const* d; int n;
  if (before == 1) s.Next(&d, &n);
  if (before == 2) { s.Next(&d, &n); s.Skip(1); }
  std::int64_t const b = s.ByteCount();
  vc_may_abort(1);
  s.BackUp(count);
  ENSURE(before == 1); ENSURE(0 <= count && count <= 3);
  ENSURE(s.ByteCount() == b - count);
}
// ---- Serializer.
namespace {
PullSerializer* serializer = nullptr;
int message_size = 0, pulls = 0; bool ended = false, compressing = false, pulling = false;
Bytes held; std::vector<std::uint8_t> held_bytes;
std::vector<std::uint8_t> pulled;
void check_held() {
  ENSURE(static_cast<int>(held_bytes.size()) == held.size);
  for (std::int64_t i = 0; i < held.size; ++i) ENSURE(held.data[i] == held_bytes[i]);
}
bool can_pull() { return !ended && serializer->queue_.size() > 1; }
void pull() {
  pulling = true;
  // The chunk given to the client was not overwritten.
  check_held();
  Bytes const b = serializer->Pull();
  ++pulls;
  std::ptrdiff_t const at = b.data - serializer->data_.get();
  ENSURE(at >= 0); ENSURE(at % serializer->compressed_chunk_size_ == 0); ENSURE(at / serializer->compressed_chunk_size_ < serializer->number_of_chunks_);
  ENSURE(b.size <= serializer->compressed_chunk_size_);
  held = b; held_bytes.assign(b.data, b.data + b.size);
  if (b.size == 0) ended = true;
  else if (compressing) {
    // Chunks are complete blocks.
    ENSURE(b.data[0] == 0xA0 + b.size - 1);
    for (std::int64_t i = 1; i < b.size; ++i) pulled.push_back(b.data[i] ^ 0x5A);
  } else for (std::int64_t i = 0; i < b.size; ++i) pulled.push_back(b.data[i]);
  pulling = false;
}
struct Out : google::protobuf::Message {
  bool SerializeToZeroCopyStream(google::protobuf::io::ZeroCopyOutputStream* s) const override {
    vc_assert(vc_mt::locks_held == 0, "serialization does not hold the lock");
    int written = 0;
    while (written < message_size) {
      void* d; int n;
      if (!s->Next(&d, &n)) return false;
      std::memset(d, 0xCC, n);
      int k = 0;
      for (; k < n && written < message_size; ++k) static_cast<std::uint8_t*>(d)[k] = message[written++];
      // Protocol buffers always back up at the end, even if there is nothing to give back; they may do so in the middle.
      if (written == message_size || vc_fork(vc_bool("useless_back_up"))) s->BackUp(n - k);
      check_held();
    }
    return true;
  }
  bool ParseFromCodedStream(google::protobuf::io::CodedInputStream*) override { return false; }
};
void serialize(bool const compress, int const chunk, int const chunks, int const size) {
  compressing = compress; message_size = size; make_message(size);
  pulled.clear(); held_bytes.clear(); held = Bytes(nullptr, 0); ended = false; pulls = 0; pulling = false;
  Out out;
  PullSerializer s(chunk, chunks, compress ? std::make_unique<Expander>() : nullptr);
  serializer = &s;
  ENSURE(s.thread_ == nullptr);
  s.Start(&out);
  // The client may pull whenever there is something to pull, and must when the serializer waits.
  vc_mt::before_lock = [](absl::Mutex*) { if (!pulling) while (can_pull() && vc_fork(vc_bool("pull"))) pull(); };
  vc_mt::waiting = [](absl::Mutex*) { vc_assert(!pulling, "the client does not wait"); vc_assert(can_pull(), "no deadlock"); if (!can_pull()) vc_assume(false); pull(); };
  s.thread_->vc_run();
  vc_mt::before_lock = nullptr;
  while (!ended) { ENSURE(can_pull()); pull(); }
  vc_mt::waiting = nullptr;
  ENSURE(static_cast<int>(pulled.size()) == size);
  for (int i = 0; i < size; ++i) ENSURE(pulled[i] == message[i]);
  ENSURE(s.queue_.size() + s.free_.size() == static_cast<std::size_t>(chunks)); ENSURE(vc_mt::locks_held == 0);
  std::thread::joins = 0;
}
}
#define SERIALIZE(n, compress, chunk, chunks, size) F_SPEC(n) { serialize(compress, chunk, chunks, size); ENSURE(std::thread::joins == 1); }
SERIALIZE(serializer_0, false, 3, 3, 0)
SERIALIZE(serializer_2, false, 3, 3, 2)
SERIALIZE(serializer_3, false, 3, 3, 3)
SERIALIZE(serializer_8, false, 2, 3, 8)
SERIALIZE(serializer_4_1, false, 1, 4, 4)
SERIALIZE(serializer_8_5, false, 2, 5, 8)
SERIALIZE(serializer_compressed_0, true, 3, 4, 0)
SERIALIZE(serializer_compressed_5, true, 2, 4, 5)
SERIALIZE(serializer_compressed_8, true, 2, 4, 8)
SERIALIZE(serializer_compressed_5_5, true, 1, 5, 3)
F_SPEC(serializer_preconditions) {
  std::int32_t const chunks = choose("chunks", 6);
  bool const compress = vc_fork(vc_bool("compress"));
  vc_may_abort(1);
  PullSerializer s(2, chunks, compress ? std::make_unique<Expander>() : nullptr);
  ENSURE(chunks >= (compress ? 4 : 3));
  Out out; message_size = 0;
  s.Start(&out);
  if (vc_fork(vc_bool("twice"))) { s.Start(&out); vc_unreachable("a serializer is started only once"); }
}
F_SPEC(serializer_owned) {
  message_size = 0; held_bytes.clear(); held = Bytes(nullptr, 0);
  static int destroyed = 0;
  struct Owned : Out { ~Owned() override { ++destroyed; } };
  {
    PullSerializer s(2, 3, nullptr);
    s.Start(not_null<std::unique_ptr<google::protobuf::Message const>>(std::make_unique<Owned>()));
    s.thread_->vc_run();
    ENSURE(destroyed == 0);
  }
  ENSURE(destroyed == 1);
}
// ---- Deserializer: the client pushes from the main thread; the stream pulls.
namespace {
PushDeserializer* deserializer = nullptr;
bool consuming = false;
Bytes consumed_chunk;               // The chunk being processed by the stream.
int consumed = 0;                   // Bytes consumed, including those of that chunk.
int done_count = 0, done_expected_at[4]; bool end_seen = false;
std::vector<int> boundaries;
bool can_consume() { return !end_seen && !deserializer->queue_.empty(); }
void consume() {
  consuming = true;
  Bytes const b = deserializer->Pull();
  ENSURE(b.size <= deserializer->chunk_size_);
  for (std::int64_t i = 0; i < b.size; ++i) ENSURE(b.data[i] == message[consumed + i]);
  consumed += b.size;
  if (b.size == 0) end_seen = true;
  consuming = false;
}
std::uint8_t wire[4][8];
void deserialize(bool const compress, int const chunk, int const chunks, int const n_blocks, int const max_block) {
  make_message(12);
  consumed = done_count = 0; end_seen = consuming = false;
  PushDeserializer d(chunk, chunks, compress ? std::make_unique<Expander>() : nullptr);
  deserializer = &d;
  vc_mt::before_lock = [](absl::Mutex*) { if (!consuming) while (can_consume() && vc_fork(vc_bool("consume"))) consume(); };
  vc_mt::waiting = [](absl::Mutex*) { vc_assert(!consuming, "the stream does not wait"); vc_assert(can_consume(), "no deadlock"); if (!can_consume()) vc_assume(false); consume(); };
  int sent = 0;
  for (int i = 0; i < n_blocks; ++i) {
    int const n = 1 + choose("block", max_block);
    Bytes b(message + sent, n);
    if (compress) { wire[i][0] = 0xA0 + n; for (int k = 0; k < n; ++k) wire[i][k + 1] = message[sent + k] ^ 0x5A; b = Bytes(wire[i], n + 1); }
    sent += n;
    done_expected_at[i] = sent;
    d.Push(b, [i]() {
      // Called once, in order, when the stream is finished with all the bytes.
      ENSURE(done_count == i); ENSURE(consumed >= done_expected_at[i]);
      ++done_count;
      if (compressing) wire[i][1] = 0xEE;  // The client may reuse its memory.
    });
    ENSURE(d.queue_.size() <= static_cast<std::size_t>(chunks)); ENSURE(vc_mt::locks_held == 0);
  }
  d.Push(Bytes(nullptr, 0), nullptr);
  vc_mt::before_lock = nullptr;
  while (!end_seen) { ENSURE(can_consume()); consume(); }
  vc_mt::waiting = nullptr;
  ENSURE(consumed == sent); ENSURE(done_count == n_blocks); ENSURE(d.queue_.empty()); ENSURE(d.done_.size() == 1);
}
}
F_SPEC(deserializer_stream) { compressing = false; deserialize(false, 2, 2, 2, 5); }
F_SPEC(deserializer_stream_1) { compressing = false; deserialize(false, 1, 1, 2, 3); }
F_SPEC(deserializer_stream_3) { compressing = false; deserialize(false, 3, 3, 3, 3); }
F_SPEC(deserializer_compressed) { compressing = true; deserialize(true, 2, 2, 3, 2); }
F_SPEC(deserializer_compressed_1) { compressing = true; deserialize(true, 3, 1, 3, 3); }
namespace {
int parsed = 0, final_calls = 0; bool parsing = false; int pushed_blocks = 0, n_pushes = 0, sent_bytes = 0; bool pushing = false, pushed_end = false;
struct In : google::protobuf::Message {
  bool SerializeToZeroCopyStream(google::protobuf::io::ZeroCopyOutputStream*) const override { return false; }
  bool ParseFromCodedStream(google::protobuf::io::CodedInputStream* c) override {
    vc_assert(vc_mt::locks_held == 0, "parsing does not hold the lock");
    void const* d; int n;
    while (c->stream->Next(&d, &n)) for (int i = 0; i < n; ++i) { ENSURE(static_cast<std::uint8_t const*>(d)[i] == message[parsed]); ++parsed; }
    c->consumed = true;
    return true;
  }
};
void push_one() {
  pushing = true;
  if (pushed_blocks == n_pushes) { pushed_end = true; deserializer->Push(Bytes(nullptr, 0), []() { ENSURE(done_count == n_pushes); ++done_count; }); }
  else {
    int const n = 1 + choose("block", 2);
    int const i = pushed_blocks++;
    Bytes const b(message + sent_bytes, n);
    sent_bytes += n;
    deserializer->Push(b, [i]() { ENSURE(done_count == i); ++done_count; });
  }
  pushing = false;
}
}
// The whole thread: every done callback, then the final one, exactly once.
F_SPEC(deserializer_thread) {
  compressing = false; make_message(6); done_count = parsed = final_calls = pushed_blocks = sent_bytes = 0; pushed_end = false; n_pushes = choose("pushes", 3);
  In in;
  {
    PushDeserializer d(2, 2, nullptr);
    deserializer = &d;
    ENSURE(d.thread_ == nullptr);
    d.Start(&in, [&](google::protobuf::Message const& m) { ++final_calls; ENSURE(&m == &in); ENSURE(parsed == sent_bytes); ENSURE(done_count == n_pushes + 1); });
    ENSURE(final_calls == 0);
    auto const may_push = []() { return !pushing && !pushed_end && deserializer->queue_.size() < 2; };
    static bool (*may)() = may_push;
    vc_mt::before_lock = [](absl::Mutex*) { while (may() && vc_fork(vc_bool("push"))) push_one(); };
    vc_mt::waiting = [](absl::Mutex*) { vc_assert(may(), "no deadlock"); if (!may()) vc_assume(false); push_one(); };
    d.thread_->vc_run();
    vc_mt::before_lock = vc_mt::waiting = nullptr;
    ENSURE(pushed_end); ENSURE(parsed == sent_bytes); ENSURE(done_count == n_pushes + 1); ENSURE(final_calls == 1);
    std::thread::joins = 0;
  }
  ENSURE(std::thread::joins == 1);
}
F_SPEC(deserializer_thread_no_callback) {
  n_pushes = 0; pushed_blocks = 0; done_count = parsed = 0; pushed_end = false;
  In in;
  PushDeserializer d(2, 2, nullptr);
  deserializer = &d;
  d.Start(&in, nullptr);
  d.Push(Bytes(nullptr, 0), nullptr);
  d.thread_->vc_run();
  ENSURE(d.done_.empty()); ENSURE(d.queue_.empty());
}
F_SPEC(deserializer_owned_bytes) {
  PushDeserializer d(2, 3, nullptr);
  deserializer = &d;
  UniqueArray<std::uint8_t> u(3);
  for (int i = 0; i < 3; ++i) u.data[i] = message[i] = vc_u8(nm("m", i).s);
  consumed = 0; end_seen = false;
  d.Push(std::move(u));
  d.Push(Bytes(nullptr, 0), nullptr);
  while (!end_seen) consume();
  ENSURE(consumed == 3);
}
F_SPEC(deserializer_preconditions) {
  std::uint8_t b[4] = {};
  std::int32_t const n = choose("n", 5) - 1;
  bool const null = vc_fork(vc_bool("null"));
  PushDeserializer d(2, 4, std::make_unique<Expander>());
  vc_may_abort(1);
  d.Push(Bytes(null ? nullptr : b, n), nullptr);
  ENSURE(n >= 0); ENSURE(n <= 3); ENSURE(!null || n == 0);
}
