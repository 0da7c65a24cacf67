#include "codec_impl.h"
namespace hx {
template <typename T>
static std::unique_ptr<ICodec> mk(const Spec& s)
{
    using namespace quadiron::fec;
    return std::unique_ptr<ICodec>(new CodecT<T>(
        s, new RsGf2n<T>(s.ws, s.k, s.m, s.kind == GF2N_V ? RsMatrixType::VANDERMONDE : RsMatrixType::CAUCHY)));
}
std::unique_ptr<ICodec> make_codec_gf2n(const Spec& s)
{
    return s.tbits == 32 ? mk<uint32_t>(s) : s.tbits == 64 ? mk<uint64_t>(s) : mk<u128>(s);
}
}
