#ifndef HX_CODEC_IMPL_H
#define HX_CODEC_IMPL_H
#include "codec.h"
#include "quadiron.h"

namespace hx {
template <typename T>
struct CodecT : ICodec {
    std::unique_ptr<quadiron::fec::FecCode<T>> f;
    explicit CodecT(const Spec& s, quadiron::fec::FecCode<T>* c) : f(c) { spec = s; }
    unsigned n_outputs() override { return f->n_outputs; }
    unsigned enc_width() override { return (unsigned)f->get_n_outputs(); }
    unsigned code_n() override { return (unsigned)f->n; }
    u128 card() override { return (u128)f->get_gf().card(); }
    typedef std::vector<Properties> PV;
    void enc_sv(std::vector<std::istream*>& i, std::vector<std::ostream*>& o, PV& p) override
    {
        f->encode_streams_vertical(i, o, p);
    }
    void enc_sh(std::vector<std::istream*>& i, std::vector<std::ostream*>& o, PV& p) override
    {
        f->encode_streams_horizontal(i, o, p);
    }
    bool dec_sv(std::vector<std::istream*>& d, std::vector<std::istream*>& q, PV& p, std::vector<std::ostream*>& o) override
    {
        return f->decode_streams_vertical(d, q, p, o);
    }
    bool dec_sh(std::vector<std::istream*>& d, std::vector<std::istream*>& q, PV& p, std::vector<std::ostream*>& o) override
    {
        return f->decode_streams_horizontal(d, q, p, o);
    }
    void enc_bv(std::vector<uint8_t*>& d, std::vector<uint8_t*>& q, PV& p, std::vector<bool>& w, size_t n) override
    {
        f->encode_blocks_vertical(d, q, p, w, n);
    }
    bool dec_bv(std::vector<uint8_t*>& d, std::vector<uint8_t*>& q, PV& p, std::vector<int>& mi, std::vector<bool>& w, size_t n) override
    {
        return f->decode_blocks_vertical(d, q, p, mi, w, n);
    }
    void enc_words(const std::vector<u128>& in, std::vector<u128>& out, PV& props, long off) override
    {
        quadiron::vec::Vector<T> w(f->get_gf(), f->n_data), o(f->get_gf(), f->get_n_outputs());
        for (unsigned i = 0; i < f->n_data; i++)
            w.set(i, (T)in[i]);
        f->encode(o, props, off, w);
        out.resize(f->n_outputs);
        for (unsigned i = 0; i < f->n_outputs; i++)
            out[i] = (u128)o.get(i);
    }
    void dec_words(const std::vector<unsigned>& ids, const std::vector<std::vector<u128>>& in, PV& props, std::vector<std::vector<u128>>& out) override
    {
        quadiron::vec::Vector<T> fi(f->get_gf(), f->n_data);
        for (unsigned i = 0; i < f->n_data; i++)
            fi.set(i, (T)ids[i]);
        auto ctx = f->init_context_dec(fi, props);
        out.clear();
        for (size_t off = 0; off < in.size(); off++) {
            quadiron::vec::Vector<T> w(f->get_gf(), f->n_data), o(f->get_gf(), f->n_data);
            for (unsigned i = 0; i < f->n_data; i++)
                w.set(i, (T)in[off][i]);
            f->decode(*ctx, o, props, (off_t)off, w);
            std::vector<u128> r(f->n_data);
            for (unsigned i = 0; i < f->n_data; i++)
                r[i] = (u128)o.get(i);
            out.push_back(r);
        }
    }
    uint64_t ops(int which) override { return which ? f->n_decode_ops : f->n_encode_ops; }
};
} // namespace hx
#endif
