#pragma once
namespace google { namespace protobuf {
class Closure { public: virtual ~Closure() {} virtual void Run() = 0; };
namespace internal { template <class C, class A1, class A2> class MethodClosure2 : public Closure { C *c_; void (C::*m_)(A1, A2); A1 a1_; A2 a2_; public: MethodClosure2(C *c, void (C::*m)(A1, A2), A1 a1, A2 a2) : c_(c), m_(m), a1_(a1), a2_(a2) {} void Run() override { C *c = c_; void (C::*m)(A1, A2) = m_; A1 a1 = a1_; A2 a2 = a2_; delete this; (c->*m)(a1, a2); } }; }
template <class C, class A1, class A2> inline Closure *NewCallback(C *c, void (C::*m)(A1, A2), A1 a1, A2 a2) { return new internal::MethodClosure2<C, A1, A2>(c, m, a1, a2); }
} }
