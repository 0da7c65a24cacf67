#include "codec_impl.h"
namespace hx {
template <typename T>
static std::unique_ptr<ICodec> mk(const Spec& s)
{
    using namespace quadiron::fec;
    return std::unique_ptr<ICodec>(new CodecT<T>(
        s,
        new RsFnt<T>(
            s.kind == FNT_SYS ? FecType::SYSTEMATIC : FecType::NON_SYSTEMATIC,
            s.ws, s.k, s.m, s.pkt)));
}
std::unique_ptr<ICodec> make_codec_fnt(const Spec& s)
{
    return s.tbits == 16 ? mk<uint16_t>(s) : mk<uint32_t>(s);
}
}
