// Stand-in for a recent absl::AnyInvocable: the type-erasure protocol that support/rs_std/dyn_callable.h is written
// against (two-pointer state, manager, invoker), as published in Abseil after 20250127, and the constructor that
// adopts a state through its manager.
#pragma once
#include <algorithm>
#include <cstddef>
#include <exception>
#include <type_traits>
#include <utility>
namespace absl {
namespace internal_any_invocable {
enum class FunctionToCall : unsigned char { dispose, relocate_from_to, relocate_from_to_and_query_rust };
union TypeErasedState {
  struct { void* target; std::size_t size; } remote;
  alignas(std::max_align_t) char storage[sizeof(void*) * 2];
};
using ManagerType = void(FunctionToCall, TypeErasedState*, TypeErasedState*);
inline void EmptyManager(FunctionToCall, TypeErasedState*, TypeErasedState*) noexcept {}
template <class T> constexpr bool IsPassByValue = !std::is_lvalue_reference_v<T> && !std::is_rvalue_reference_v<T> &&
    std::is_trivially_copy_constructible_v<T> && std::is_trivially_destructible_v<T> && sizeof(T) <= 2 * sizeof(void*);
template <class T, bool = IsPassByValue<T>> struct Fwd { using type = T&&; };
template <class T> struct Fwd<T, true> { using type = T; };
template <class T> using ForwardedParameterType = typename Fwd<T>::type;
template <class Sig> struct Core;
#define ABSL_SHIM_CORE(qual, kConst) \
  template <class R, class... P> struct Core<R(P...) qual> { \
    using Invoker = R(TypeErasedState*, ForwardedParameterType<P>...); \
    R operator()(P... args) qual { \
      Invoker* i = this->invoker_; \
      TypeErasedState* s = const_cast<TypeErasedState*>(&this->state_); \
      return i(s, std::forward<ForwardedParameterType<P>>(args)...); \
    } \
    TypeErasedState state_; \
    ManagerType* manager_ = EmptyManager; \
    Invoker* invoker_ = nullptr; \
  };
ABSL_SHIM_CORE(, false)
ABSL_SHIM_CORE(const, true)
#undef ABSL_SHIM_CORE
template <class R, class... P> struct Core<R(P...) &&> {
  using Invoker = R(TypeErasedState*, ForwardedParameterType<P>...);
  R operator()(P... args) && {
    Invoker* i = this->invoker_;
    this->invoker_ = nullptr;
    ManagerType* m = this->manager_;
    this->manager_ = EmptyManager;
    struct End { ManagerType* m; TypeErasedState* s; ~End() { m(FunctionToCall::dispose, s, s); } } end{m, &this->state_};
    return i(&this->state_, std::forward<ForwardedParameterType<P>>(args)...);
  }
  TypeErasedState state_;
  ManagerType* manager_ = EmptyManager;
  Invoker* invoker_ = nullptr;
};
}  // namespace internal_any_invocable
template <class Sig> class AnyInvocable : private internal_any_invocable::Core<Sig> {
  using Core = internal_any_invocable::Core<Sig>;
 public:
  AnyInvocable(internal_any_invocable::TypeErasedState* state, internal_any_invocable::ManagerType* manager, typename Core::Invoker* invoker) {
    this->manager_ = manager;
    this->invoker_ = invoker;
    manager(internal_any_invocable::FunctionToCall::relocate_from_to, state, &this->state_);
  }
  AnyInvocable(AnyInvocable&& o) noexcept {
    o.manager_(internal_any_invocable::FunctionToCall::relocate_from_to, &o.state_, &this->state_);
    this->manager_ = std::exchange(o.manager_, internal_any_invocable::EmptyManager);
    this->invoker_ = std::exchange(o.invoker_, nullptr);
  }
  ~AnyInvocable() { this->manager_(internal_any_invocable::FunctionToCall::dispose, &this->state_, &this->state_); }
  using Core::operator();
  explicit operator bool() const { return this->invoker_ != nullptr; }
};
}  // namespace absl
