// P03: the chunked overlap-add convolver: any chunking, same stream
#include "stream_common.hpp"

#include <neo/convolution/dense_convolver.hpp>

namespace vh {

namespace nc = neo::convolution;

template<typename C>
void all(rng& g, std::vector<ints> const& hist, char const* t)
{
    auto load = [](auto& conv, auto m) { conv.filter(m); };
    for (std::size_t i = 0; i < hist.size(); ++i) {
        auto const b = stream_config(g, i, true);
        stream<nc::upola_convolver_v2<C>, C>(g, hist[i], b, "upola_v2", t, load);
    }
}

void run()
{
    auto g          = rng{3};
    auto const hist = stream_scenarios();
    // convolvers in several threads at once
    auto load = [](auto& conv, auto m) { conv.filter(m); };
    crowd(g, 6, [&](rng& r, int i) {
        auto const& h = hist[static_cast<std::size_t>(i) % hist.size()];
        for (std::size_t b : {32, 128}) {
            stream<nc::upola_convolver_v2<std::complex<float>>, std::complex<float>>(r, h, {b, true}, "upola_v2", "c64", load);
            stream<nc::upola_convolver_v2<std::complex<double>>, std::complex<double>>(r, h, {b, true}, "upola_v2", "c128", load);
        }
    });
    all<std::complex<float>>(g, hist, "c64");
    all<std::complex<double>>(g, hist, "c128");
}

}  // namespace vh
