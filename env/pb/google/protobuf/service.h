#pragma once
#include "google/protobuf/message.h"
#include "google/protobuf/stubs/callback.h"
namespace google { namespace protobuf {
class ServiceDescriptor; 
class MethodDescriptor { public: std::string name_; const ServiceDescriptor *service_; const std::string &name() const { return name_; } const ServiceDescriptor *service() const { return service_; } };
class ServiceDescriptor { public: std::string full_name_; const MethodDescriptor *methods_; int n_; const std::string &full_name() const { return full_name_; } const MethodDescriptor *FindMethodByName(const std::string &s) const { for (int i = 0; i < n_; i++) if (methods_[i].name_ == s) return methods_ + i; return nullptr; } };
class RpcController { public: virtual ~RpcController() {} virtual void Reset() = 0; virtual bool Failed() const = 0; virtual std::string ErrorText() const = 0; virtual void StartCancel() = 0; virtual void SetFailed(const std::string &) = 0; virtual bool IsCanceled() const = 0; virtual void NotifyOnCancel(Closure *) = 0; };
class RpcChannel { public: virtual ~RpcChannel() {} virtual void CallMethod(const MethodDescriptor *, RpcController *, const Message *, Message *, Closure *) = 0; };
class Service { public: virtual ~Service() {} virtual const ServiceDescriptor *GetDescriptor() = 0; virtual void CallMethod(const MethodDescriptor *, RpcController *, const Message *, Message *, Closure *) = 0; virtual const Message &GetRequestPrototype(const MethodDescriptor *) const = 0; virtual const Message &GetResponsePrototype(const MethodDescriptor *) const = 0; };
} }
