// One self-contained piece of work on objects of its own; everything it
// computed is folded into a digest.
#ifndef HX_THREAD_JOBS_H
#define HX_THREAD_JOBS_H
#include "common.h"
namespace hx {
// cls: which class of objects (all threads of a case often share it, so that
// they meet in the same template instantiation). jit() is called between steps.
uint64_t field_job(unsigned cls, Rng rng, const std::function<void(int)>& jit);
uint64_t capi_job(unsigned cls, Rng rng, const std::function<void(int)>& jit);
extern const unsigned n_field_cls;
std::string field_cls_name(unsigned cls);
} // namespace hx
#endif
