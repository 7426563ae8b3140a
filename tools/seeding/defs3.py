TESTS=['bit/bit_ceil_test.cpp','bit/bit_log2_test.cpp','math/a_weighting_test.cpp','math/ipow_test.cpp','simd_test.cpp','unit/decibel_test.cpp']
BUGS=[]
def bug(**k): BUGS.append(k)
CF='-O1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -Iextra/cli/src -I"$D/cli"'
PC='''
#include <filesystem>
#define main neo_cli_main
#include "convolver.cpp"
#undef main
static std::string dir;
static std::string at(char const* n) { return dir + "/" + n; }
static void put(char const* n, unsigned ch, unsigned rate, std::vector<float> const& d) {
  drwav w{}; drwav_data_format f{drwav_container_riff, DR_WAVE_FORMAT_IEEE_FLOAT, ch, rate, 32};
  drwav_init_file_write(&w, at(n).c_str(), &f, nullptr); drwav_write_pcm_frames(&w, d.size() / ch, d.data()); drwav_uninit(&w); }
static std::vector<float> get(char const* n) {
  drwav w{}; if (!drwav_init_file(&w, at(n).c_str(), nullptr)) return {};
  std::vector<float> d(w.channels * w.totalPCMFrameCount); drwav_read_pcm_frames_f32(&w, w.totalPCMFrameCount, d.data()); drwav_uninit(&w); return d; }
static int run(char const* a, char const* b, char const* o) {
  std::string s[4] = {"x", at(a), at(b), at(o)}; char* v[5] = {s[0].data(), s[1].data(), s[2].data(), s[3].data(), nullptr}; return neo_cli_main(4, v); }
static bool is(std::vector<float> const& y, std::size_t i, float v) { if (i >= y.size() || std::fabs(y[i] - v) > 0.005F) { std::printf("sample %zu: %f, expected %f\\n", i, i < y.size() ? y[i] : -1.0F, v); return false; } return true; }
static int body();
int main() { char t[] = "/tmp/clidemoXXXXXX"; dir = mkdtemp(t); int rc = body(); std::filesystem::remove_all(dir); return rc; }
'''
bug(id='p29-last-block',prop='P29',inc=[],stubs=['cli'],flags=CF,
 needs='a signal whose length is a multiple of the block size of 32768 and exactly one more sample',
 what='A last block of a single sample is skipped, so the last sample of the output is silent.',
 edits=[('extra/cli/src/convolver.cpp','        for (auto i{0}; std::cmp_less(i, output.extent(1)); i += block_size) {','        for (auto i{0}; std::cmp_less(i, output.extent(1)) and (i == 0 or output.extent(1) - size_t(i) > 1); i += block_size) {')],
 demo=PC+'''
static int body() {
  std::vector<float> x(32769, 0.0F), h(4, 0.0F); x[0] = 1; x[32768] = 0.5F; h[0] = 1; h[1] = 0.25F;
  put("a", 1, 8000, x); put("b", 1, 8000, h);
  CHECK(run("a", "b", "o") == 0);
  auto y = get("o");
  CHECK(y.size() == x.size()); CHECK(is(y, 0, 1)); CHECK(is(y, 1, 0.25F)); CHECK(is(y, 32768, 0.5F));
  return 0; }
''')
bug(id='p29-channel-peak',prop='P29',inc=[],stubs=['cli'],flags=CF,
 needs='more than one channel, a long signal and the loudest sample at the very end of a later channel',
 what='Peak normalisation of a long matrix does not look at the last columns of rows after the first.',
 edits=[('algorithm/normalize_peak.hpp','''for (decltype(obj.extent(1)) j{0}; j < obj.extent(1); ++j) {''','''for (decltype(obj.extent(1)) j{0}; j < (i == 0 ? obj.extent(1) : obj.extent(1) - obj.extent(1) / 16384); ++j) {''')],
 demo=PC+'''
static int body() {
  std::vector<float> x(2 * 20000, 0.0F), h(2, 1.0F); x[0] = 0.25F; x[2 * 19999 + 1] = 1.0F;
  put("a", 2, 8000, x); put("b", 2, 8000, h);
  CHECK(run("a", "b", "o") == 0);
  auto y = get("o");
  CHECK(y.size() == x.size()); CHECK(is(y, 0, 0.25F)); CHECK(is(y, 2 * 19999 + 1, 1.0F));
  return 0; }
''')
bug(id='p29-rate-truncated',prop='P29',inc=[],stubs=['cli'],flags=CF,
 needs='different rates that agree in whole kHz',
 what='Sample rates are compared after conversion to whole kHz: files recorded at 44100 and 44292 Hz are convolved without complaint.',
 edits=[('extra/cli/src/convolver.cpp','    if (not neo::float_equality::exact(signal_sr, filter_sr)) {','    if (static_cast<int>(signal_sr) / 1000 != static_cast<int>(filter_sr) / 1000) {')],
 demo=PC+'''
static int body() {
  std::vector<float> x(20, 1.0F);
  put("a", 1, 8000, x); put("b", 1, 8191, x); put("c", 1, 48000, x);
  CHECK(run("a", "a", "o") == 0); CHECK(run("a", "b", "p") != 0); CHECK(get("p").empty()); CHECK(run("a", "c", "p") != 0);
  return 0; }
''')
