// P01: uniformly partitioned convolvers compute the linear convolution of the stream
#include "stream_common.hpp"

#include <neo/convolution/dense_convolver.hpp>

namespace vh {

namespace nc = neo::convolution;

template<typename C>
void all(rng& g, std::vector<ints> const& hist, char const* t)
{
    auto load = [](auto& conv, auto m) { conv.filter(m); };
    for (std::size_t i = 0; i < hist.size(); ++i) {
        auto const b = stream_config(g, i, false);
        switch (i % 4) {
            case 0: stream<nc::upols_convolver<C>, C>(g, hist[i], b, "upols", t, load); break;
            case 1: stream<nc::upola_convolver<C>, C>(g, hist[i], b, "upola", t, load); break;
            case 2: stream<nc::split_upols_convolver<C>, C>(g, hist[i], b, "split_upols", t, load); break;
            default: stream<nc::split_upola_convolver<C>, C>(g, hist[i], b, "split_upola", t, load); break;
        }
    }
}

void run()
{
    auto g          = rng{1};
    auto const hist = stream_scenarios();
    // convolvers in several threads at once
    auto load = [](auto& conv, auto m) { conv.filter(m); };
    auto one  = [&]<typename C>(rng& r, std::size_t k, char const* t) {
        for (std::size_t b : {64, 128}) {
            stream<nc::upols_convolver<C>, C>(r, hist[k % hist.size()], {b}, "upols", t, load);
            stream<nc::upola_convolver<C>, C>(r, hist[k % hist.size()], {b}, "upola", t, load);
            stream<nc::split_upols_convolver<C>, C>(r, hist[k % hist.size()], {b}, "split_upols", t, load);
            stream<nc::split_upola_convolver<C>, C>(r, hist[k % hist.size()], {b}, "split_upola", t, load);
        }
    };
    crowd(g, 6, [&](rng& r, int i) {
        one.template operator()<std::complex<float>>(r, static_cast<std::size_t>(i), "c64");
        one.template operator()<std::complex<double>>(r, static_cast<std::size_t>(i), "c128");
    });
    all<std::complex<float>>(g, hist, "c64");
    all<std::complex<double>>(g, hist, "c128");
}

}  // namespace vh
