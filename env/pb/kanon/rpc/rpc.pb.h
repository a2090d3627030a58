// Stand-in for what protoc makes of kanon/rpc/rpc.proto; the wire form is a plain list of fields.
#pragma once
#include "google/protobuf/message.h"
namespace kanon { namespace protobuf { namespace rpc {
class RpcMessage : public ::google::protobuf::Message { public:
  enum ErrorCode { kNoError = 0, kInvalidMessage = 1, kNoService = 2, kNoMethod = 3, kInvalidRequest = 4, kInvalidResponse = 5, kCancelRpc = 6 };
  enum MessageType { kResponse = 0, kRequest = 1 };
  static const RpcMessage &default_instance() { static RpcMessage m; return m; }
  Message *New() const override { return new RpcMessage; }
#define KS_FIELD(n, T, name) bool has_##name() const { return has_ >> n & 1; } T name() const { return name##_; } void set_##name(T v) { has_ |= 1 << n; name##_ = v; }
#define KS_TEXT(n, name) bool has_##name() const { return has_ >> n & 1; } const std::string &name() const { return name##_; } void set_##name(const std::string &v) { has_ |= 1 << n; name##_ = v; }
  KS_FIELD(0, MessageType, type) KS_FIELD(1, uint64_t, id) KS_TEXT(2, service) KS_TEXT(3, method) KS_TEXT(4, request) KS_TEXT(5, response) KS_FIELD(6, ErrorCode, error) KS_FIELD(7, uint64_t, deadline)
  std::string Encode() const override { std::string s; s.push_back((char)has_); s.push_back((char)type_); s.push_back((char)error_); s.append((const char *)&id_, 8); if (has_deadline()) s.append((const char *)&deadline_, 8);
    const std::string *t[4] = {&service_, &method_, &request_, &response_}; for (int i = 0; i < 4; i++) if (has_ >> (2 + i) & 1) { s.push_back((char)t[i]->size()); s.append(*t[i]); } return s; }
  bool Decode(const char *p, size_t n) override { if (n < 11) return false; has_ = (uint8_t)p[0]; if ((has_ & 3) != 3) return false; type_ = (MessageType)p[1]; error_ = (ErrorCode)p[2]; memcpy(&id_, p + 3, 8); size_t at = 11; if (has_deadline()) { if (n < 19) return false; memcpy(&deadline_, p + at, 8); at += 8; }
    std::string *t[4] = {&service_, &method_, &request_, &response_}; for (int i = 0; i < 4; i++) if (has_ >> (2 + i) & 1) { if (at >= n) return false; size_t k = (uint8_t)p[at++]; if (n - at < k) return false; t[i]->assign(p + at, k); at += k; } return at == n; }
 private: uint8_t has_ = 0; MessageType type_ = kResponse; ErrorCode error_ = kNoError; uint64_t id_ = 0, deadline_ = 0; std::string service_, method_, request_, response_; };
} } }
