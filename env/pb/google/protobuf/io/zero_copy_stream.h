// Stand-in for the protobuf library, which is not installed here: the interfaces kanon's codecs and RPC classes use, with
// messages whose wire form is theirs to define. Written from protobuf's documentation.
#pragma once
#include <stdint.h>
#include <string>
namespace google { namespace protobuf { typedef uint8_t uint8; namespace io {
class ZeroCopyOutputStream { public: virtual ~ZeroCopyOutputStream() {} virtual bool Next(void **data, int *size) = 0; virtual void BackUp(int count) = 0; virtual int64_t ByteCount() const = 0; virtual bool WriteAliasedRaw(const void *, int) { return false; } virtual bool AllowsAliasing() const { return false; } };
} } }
