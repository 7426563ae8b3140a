// Stand-in for dr_wav (mackron/dr_libs): the part the command-line tool uses, on real files with a RIFF header,
// 32-bit float samples only.  Objects are zeroed when a call fails, as dr_wav does.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
typedef std::uint32_t drwav_uint32;
typedef std::uint64_t drwav_uint64;
typedef std::uint16_t drwav_uint16;
typedef drwav_uint32 drwav_bool32;
typedef std::int32_t drwav_int32;
#define DRWAV_TRUE 1
#define DRWAV_FALSE 0
#define DR_WAVE_FORMAT_PCM 0x1
#define DR_WAVE_FORMAT_IEEE_FLOAT 0x3
typedef enum { drwav_container_riff, drwav_container_rifx, drwav_container_w64, drwav_container_rf64 } drwav_container;
typedef struct { void* pUserData; } drwav_allocation_callbacks;
typedef struct
{
    drwav_container container;
    drwav_uint32 format;
    drwav_uint32 channels;
    drwav_uint32 sampleRate;
    drwav_uint32 bitsPerSample;
} drwav_data_format;
typedef struct
{
    drwav_uint32 sampleRate;
    drwav_uint16 channels;
    drwav_uint16 bitsPerSample;
    drwav_uint16 translatedFormatTag;
    drwav_uint64 totalPCMFrameCount;
    std::FILE* file;
    drwav_uint64 at;
    drwav_bool32 writing;
} drwav;

namespace drwav_stub {
inline int g_open = 0;
inline long long g_space = -1;   // frames the disk still takes of each file, -1: enough
#pragma pack(push, 1)
struct header
{
    char riff[4];
    std::uint32_t size;
    char wave[4];
    char fmt_[4];
    std::uint32_t fmtSize;
    std::uint16_t tag;
    std::uint16_t channels;
    std::uint32_t rate;
    std::uint32_t bytesPerSecond;
    std::uint16_t align;
    std::uint16_t bits;
    char data[4];
    std::uint32_t dataSize;
};
#pragma pack(pop)
inline void fill(header& h, drwav const& w)
{
    std::memcpy(h.riff, "RIFF", 4);
    std::memcpy(h.wave, "WAVE", 4);
    std::memcpy(h.fmt_, "fmt ", 4);
    std::memcpy(h.data, "data", 4);
    h.fmtSize        = 16;
    h.tag            = w.translatedFormatTag;
    h.channels       = w.channels;
    h.rate           = w.sampleRate;
    h.bits           = w.bitsPerSample;
    h.align          = (std::uint16_t)(w.channels * w.bitsPerSample / 8);
    h.bytesPerSecond = h.rate * h.align;
    h.dataSize       = (std::uint32_t)(w.totalPCMFrameCount * h.align);
    h.size           = 36 + h.dataSize;
}
}  // namespace drwav_stub

inline drwav_bool32 drwav_init_file(drwav* w, char const* path, drwav_allocation_callbacks const*)
{
    *w     = drwav{};
    auto* f = std::fopen(path, "rb");
    if (f == nullptr) { return DRWAV_FALSE; }
    auto h = drwav_stub::header{};
    if (std::fread(&h, 1, sizeof h, f) != sizeof h or std::memcmp(h.riff, "RIFF", 4) != 0 or h.tag != DR_WAVE_FORMAT_IEEE_FLOAT or h.align == 0) {
        std::fclose(f);
        return DRWAV_FALSE;
    }
    w->sampleRate          = h.rate;
    w->channels            = h.channels;
    w->bitsPerSample       = h.bits;
    w->translatedFormatTag = h.tag;
    w->totalPCMFrameCount  = h.dataSize / h.align;
    w->file                = f;
    ++drwav_stub::g_open;
    return DRWAV_TRUE;
}
inline drwav_uint64 drwav_read_pcm_frames_f32(drwav* w, drwav_uint64 frames, float* out)
{
    if (w->file == nullptr or w->writing) { return 0; }
    auto const left = w->totalPCMFrameCount - w->at;
    if (frames > left) { frames = left; }
    auto const n = std::fread(out, sizeof(float) * w->channels, (std::size_t)frames, w->file);
    w->at += n;
    return n;
}
inline drwav_bool32 drwav_init_file_write(drwav* w, char const* path, drwav_data_format const* fmt, drwav_allocation_callbacks const*)
{
    *w = drwav{};
    if (fmt->format != DR_WAVE_FORMAT_IEEE_FLOAT or fmt->bitsPerSample != 32 or fmt->container != drwav_container_riff) { std::_Exit(95); }
    auto* f = std::fopen(path, "wb");
    if (f == nullptr) { return DRWAV_FALSE; }
    w->sampleRate          = fmt->sampleRate;
    w->channels            = (drwav_uint16)fmt->channels;
    w->bitsPerSample       = (drwav_uint16)fmt->bitsPerSample;
    w->translatedFormatTag = (drwav_uint16)fmt->format;
    w->file                = f;
    w->writing             = DRWAV_TRUE;
    auto h = drwav_stub::header{};
    drwav_stub::fill(h, *w);
    std::fwrite(&h, 1, sizeof h, f);
    ++drwav_stub::g_open;
    return DRWAV_TRUE;
}
inline drwav_uint64 drwav_write_pcm_frames(drwav* w, drwav_uint64 frames, void const* data)
{
    if (w->file == nullptr or not w->writing or w->channels == 0) { return 0; }
    if (drwav_stub::g_space >= 0) {
        auto const left = drwav_stub::g_space - (long long)w->totalPCMFrameCount;
        if ((long long)frames > left) { frames = (drwav_uint64)left; }
    }
    auto const n = std::fwrite(data, sizeof(float) * w->channels, (std::size_t)frames, w->file);
    w->totalPCMFrameCount += n;
    return n;
}
inline int drwav_uninit(drwav* w)
{
    if (w == nullptr or w->file == nullptr) { return -2; }
    if (w->writing) {
        auto h = drwav_stub::header{};
        drwav_stub::fill(h, *w);
        std::rewind(w->file);
        std::fwrite(&h, 1, sizeof h, w->file);
    }
    std::fclose(w->file);
    w->file = nullptr;   // like dr_wav, the format fields stay readable
    --drwav_stub::g_open;
    return 0;
}
