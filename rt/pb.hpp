// Stand-ins for the protocol buffer streams and messages: abstract interfaces only.
#pragma once
#include <cstdint>
#define GOOGLE_PROTOBUF_MESSAGE_H__
#define GOOGLE_PROTOBUF_IO_ZERO_COPY_STREAM_H__
#define GOOGLE_PROTOBUF_IO_CODED_STREAM_H__
namespace google::protobuf {
namespace io {
class ZeroCopyOutputStream { public: virtual ~ZeroCopyOutputStream() = default; virtual bool Next(void** data, int* size) = 0; virtual void BackUp(int count) = 0; virtual std::int64_t ByteCount() const = 0; };
class ZeroCopyInputStream { public: virtual ~ZeroCopyInputStream() = default; virtual bool Next(void const** data, int* size) = 0; virtual void BackUp(int count) = 0; virtual bool Skip(int count) = 0; virtual std::int64_t ByteCount() const = 0; };
class CodedInputStream { public: explicit CodedInputStream(ZeroCopyInputStream* s) : stream(s) {} bool ConsumedEntireMessage() const { return consumed; } ZeroCopyInputStream* stream; bool consumed = false; };
}
class Message { public: virtual ~Message() = default; virtual bool SerializeToZeroCopyStream(io::ZeroCopyOutputStream*) const = 0; virtual bool ParseFromCodedStream(io::CodedInputStream*) = 0; };
}
