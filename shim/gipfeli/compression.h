// Stand-in for gipfeli: the abstract interfaces only.
#pragma once
#include <string>
#include "gipfeli/sinksource.h"
namespace google { namespace compression {
class Compressor {
 public:
  virtual ~Compressor() = default;
  virtual std::size_t Compress(const std::string& input, std::string* output) = 0;
  virtual bool Uncompress(const std::string& input, std::string* output) = 0;
  virtual std::size_t CompressStream(Source* reader, Sink* writer) = 0;
  virtual bool UncompressStream(Source* reader, Sink* writer) = 0;
  virtual std::size_t MaxCompressedLength(std::size_t n) = 0;
};
}}
