#include "codec_impl.h"
namespace hx {
template <typename T>
static std::unique_ptr<ICodec> mk(const Spec& s)
{
    return std::unique_ptr<ICodec>(new CodecT<T>(s, new quadiron::fec::RsGfpFft<T>(s.ws, s.k, s.m)));
}
std::unique_ptr<ICodec> make_codec_gfp(const Spec& s)
{
    return s.tbits == 16 ? mk<uint16_t>(s) : s.tbits == 32 ? mk<uint32_t>(s) : mk<uint64_t>(s);
}
}
