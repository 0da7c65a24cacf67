#include "codec_impl.h"
namespace hx {
template <typename T>
static std::unique_ptr<ICodec> mk(const Spec& s)
{
    return std::unique_ptr<ICodec>(new CodecT<T>(s, new quadiron::fec::RsNf4<T>(s.ws, s.k, s.m, s.pkt)));
}
std::unique_ptr<ICodec> make_codec_nf4(const Spec& s)
{
    return s.tbits == 32 ? mk<uint32_t>(s) : s.tbits == 64 ? mk<uint64_t>(s) : mk<u128>(s);
}
}
