// Adaptors compiled to LLVM IR next to the repository's sources.  They contain no logic of their own: they call one
// function of the repository and lay its result out flat (vp_*), build a result object for a contract (vpmk_*), or
// publish layout facts (vpoff_*, vpval_*) so that specifications can name private fields.
#pragma once
#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/http3/result.hpp>
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
using namespace bnl;
struct vp_out { uint64_t ok; uint64_t err; uint64_t v[14]; };
template<class R> static inline bool vp_fl(R &r, vp_out *o)
{
  if (r.has_value()) { o->ok = 1; return true; }
  o->ok = 0; o->err = static_cast<uint64_t>(r.error());
  return false;
}
#define VPMK(NAME, T) \
  http3::result<T> vpmk_##NAME##_ok(T *v) { return std::move(*v); } \
  http3::result<T> vpmk_##NAME##_err(uint64_t e) { return static_cast<http3::error>(e); }
#define VPMKS(NAME, T) \
  http3::result<T> vpmk_##NAME##_ok(T v) { return v; } \
  http3::result<T> vpmk_##NAME##_err(uint64_t e) { return static_cast<http3::error>(e); }
#define VPOFF(NAME, C, F) extern const size_t vpoff_##NAME; const size_t vpoff_##NAME = __builtin_offsetof(C, F);
#define VPVAL(NAME, V) extern const uint64_t vpval_##NAME; const uint64_t vpval_##NAME = static_cast<uint64_t>(V);
#define VPSIZE(NAME, C) extern const size_t vpsize_##NAME; const size_t vpsize_##NAME = sizeof(C);
