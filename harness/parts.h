// Heavy harnesses are compiled in parts: one mode (HX_M_<mode>) and one half of
// the symbol types at a time.
#ifndef HX_PARTS_H
#define HX_PARTS_H
#ifdef HX_HI
#define HX_SPLIT(fn, args)             \
    template void fn<uint64_t> args;   \
    template void fn<hx::u128> args;
#elif defined(HX_LO)
#define HX_SPLIT(fn, args)                  \
    extern template void fn<uint64_t> args; \
    extern template void fn<hx::u128> args;
#else
#define HX_SPLIT(fn, args)
#endif
#endif
