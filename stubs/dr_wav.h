// Declarations only: lets the analyser parse the translation units that use dr_wav.
#pragma once
#include <cstddef>
#include <cstdint>
typedef std::uint64_t drwav_uint64; typedef std::uint32_t drwav_uint32; typedef std::uint16_t drwav_uint16; typedef std::int16_t drwav_int16;typedef std::int32_t drwav_int32;
enum drwav_container { drwav_container_riff };
#define DR_WAVE_FORMAT_PCM 0x1
struct drwav_allocation_callbacks;
struct drwav_data_format { drwav_container container; drwav_uint32 format; drwav_uint32 channels; drwav_uint32 sampleRate; drwav_uint32 bitsPerSample; };
struct drwav { drwav_uint32 sampleRate; std::uint16_t channels; std::uint16_t bitsPerSample; drwav_uint64 totalPCMFrameCount; };
drwav_uint32 drwav_init_file(drwav *, const char *, const drwav_allocation_callbacks *);
drwav_uint32 drwav_init_file_write(drwav *, const char *, const drwav_data_format *, const drwav_allocation_callbacks *);
drwav_uint64 drwav_read_pcm_frames_f32(drwav *, drwav_uint64, float *);
drwav_uint64 drwav_write_pcm_frames(drwav *, drwav_uint64, const void *);
drwav_uint32 drwav_uninit(drwav *);
