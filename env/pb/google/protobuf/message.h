#pragma once
#include <string.h>
#include "google/protobuf/io/zero_copy_stream.h"
namespace google { namespace protobuf {
// How a message is handed to a stream is the library's choice: pb_step limits how many bytes are put into one buffer before
// the rest of it is handed back.
extern size_t pb_step;
class MessageLite { public: virtual ~MessageLite() {}
  virtual std::string Encode() const = 0; virtual bool Decode(const char *p, size_t n) = 0; // the wire form
  size_t ByteSizeLong() const { return (size_t)(cached_ = (int)Encode().size()); }
  int GetCachedSize() const { return cached_; }
  uint8 *SerializeWithCachedSizesToArray(uint8 *p) const { std::string s = Encode(); memcpy(p, s.data(), s.size()); return p + s.size(); }
  bool SerializePartialToZeroCopyStream(io::ZeroCopyOutputStream *o) const {
    std::string s = Encode(); cached_ = (int)s.size(); size_t at = 0; bool any = false;
    while (at < s.size() || !any) { void *p; int n; any = true; if (!o->Next(&p, &n)) return false; size_t k = s.size() - at < (size_t)n ? s.size() - at : (size_t)n; if (pb_step && k > pb_step) k = pb_step; if (k) memcpy(p, s.data() + at, k); at += k; if (k < (size_t)n) o->BackUp((int)((size_t)n - k)); }
    return true; }
  bool SerializeToZeroCopyStream(io::ZeroCopyOutputStream *o) const { return SerializePartialToZeroCopyStream(o); }
  std::string SerializeAsString() const { return Encode(); }
  bool ParseFromArray(const void *p, int n) { return Decode((const char *)p, (size_t)n); }
  bool ParsePartialFromArray(const void *p, int n) { return Decode((const char *)p, (size_t)n); }
  bool ParseFromString(const std::string &s) { return Decode(s.data(), s.size()); }
  std::string DebugString() const { return ""; }
 private: mutable int cached_ = 0; };
class Message : public MessageLite { public: virtual Message *New() const = 0; };
} }
