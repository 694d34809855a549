// Stand-ins for the two libraries around the demodulator, used instead of libsndfile and liquid-dsp:
// a sound "file" held in memory, and ideal signal processing (no gain control, a filter that averages over one
// PSK symbol, a symbol clock that is always right). With them the real reader, demodulator and main loop run on
// noise-free signals.
#pragma once
#include "cli.h"
#include <cmath>
#include <complex>
#include <sndfile.h>
extern "C" {
#include "liquid/liquid.h"
}
namespace oracle {
struct Sound {
  std::vector<float> in, out;
  std::size_t pos = 0;
  int channels = 1, rate = 171000;
  bool opens = true;
  unsigned reads = 0, mode_format = 0, open_files = 0;
  long (*onRead)(unsigned) = nullptr;
};
inline Sound& sound() { static Sound* s = new Sound(); return *s; }
}
extern "C" {
static int sfIn_, sfOut_;
SNDFILE* sf_open_fd(int fd, int mode, SF_INFO* info, int) { auto& s = oracle::sound(); if (!s.opens) return nullptr; (void)fd; s.open_files++; if (mode == SFM_READ) s.mode_format = static_cast<unsigned>(info->format); return reinterpret_cast<SNDFILE*>(mode == SFM_READ ? &sfIn_ : &sfOut_); }
SNDFILE* sf_open(const char*, int, SF_INFO* info) { auto& s = oracle::sound(); if (!s.opens) return nullptr; s.open_files++; info->channels = s.channels; info->samplerate = s.rate; return reinterpret_cast<SNDFILE*>(&sfIn_); }
int sf_close(SNDFILE* f) { if (f) oracle::sound().open_files--; return 0; }
int sf_error(SNDFILE*) { return 1; }
const char* sf_error_number(int) { return "error"; }
sf_count_t sf_read_float(SNDFILE*, float* p, sf_count_t n) {
  auto& s = oracle::sound();
  s.reads++;
  const std::size_t k = std::min(static_cast<std::size_t>(n), s.in.size() - s.pos);
  if (k) std::memcpy(p, s.in.data() + s.pos, k * sizeof(float));
  s.pos += k;
  return static_cast<sf_count_t>(k);
}
sf_count_t sf_write_float(SNDFILE*, const float* p, sf_count_t n) { auto& s = oracle::sound(); s.out.insert(s.out.end(), p, p + n); return n; }
}
#ifdef IDEAL_LIQUID
namespace oracle {
typedef std::complex<float> Cf;
struct Fir { Cf ring[72]; unsigned at; Cf sum; };
struct Nco { float phase, freq; };
struct Sym { unsigned n; };
struct Resamp { float rate = 1.f, acc = 0.f; };
template <class T> T* ob(void* p) { return static_cast<T*>(p); }
}
extern "C" {
agc_crcf agc_crcf_create() { return reinterpret_cast<agc_crcf>(new int(0)); }
int agc_crcf_destroy(agc_crcf q) { delete oracle::ob<int>(q); return 0; }
int agc_crcf_set_bandwidth(agc_crcf, float) { return 0; }
int agc_crcf_set_gain(agc_crcf, float) { return 0; }
int agc_crcf_execute(agc_crcf, std::complex<float> x, std::complex<float>* y) { *y = x; return 0; }
firfilt_crcf firfilt_crcf_create_kaiser(unsigned, float, float, float) { return reinterpret_cast<firfilt_crcf>(new oracle::Fir()); }
int firfilt_crcf_destroy(firfilt_crcf q) { delete oracle::ob<oracle::Fir>(q); return 0; }
int firfilt_crcf_set_scale(firfilt_crcf, float) { return 0; }
int firfilt_crcf_push(firfilt_crcf q, std::complex<float> x) { auto* f = oracle::ob<oracle::Fir>(q); f->ring[f->at] = x; f->at = f->at == 71 ? 0 : f->at + 1; return 0; }
int firfilt_crcf_execute(firfilt_crcf q, std::complex<float>* y) { auto* f = oracle::ob<oracle::Fir>(q); float a = 0, b = 0; for (const auto& c : f->ring) { a += c.real(); b += c.imag(); } *y = std::complex<float>(a / 36, b / 36); return 0; }
unsigned firfilt_crcf_get_length(firfilt_crcf) { return 72; }
nco_crcf nco_crcf_create(liquid_ncotype) { return reinterpret_cast<nco_crcf>(new oracle::Nco()); }
int nco_crcf_destroy(nco_crcf q) { delete oracle::ob<oracle::Nco>(q); return 0; }
int nco_crcf_set_frequency(nco_crcf q, float f) { oracle::ob<oracle::Nco>(q)->freq = f; return 0; }
int nco_crcf_reset(nco_crcf q) { oracle::ob<oracle::Nco>(q)->phase = 0; return 0; }
int nco_crcf_step(nco_crcf q) { auto* n = oracle::ob<oracle::Nco>(q); n->phase += n->freq; if (n->phase > 3.14159274f) n->phase -= 6.28318548f; return 0; }
float nco_crcf_get_phase(nco_crcf q) { return oracle::ob<oracle::Nco>(q)->phase; }
int nco_crcf_pll_set_bandwidth(nco_crcf, float) { return 0; }
int nco_crcf_pll_step(nco_crcf, float) { return 0; }
symsync_crcf symsync_crcf_create_rnyquist(int, unsigned, unsigned, float, unsigned) { return reinterpret_cast<symsync_crcf>(new oracle::Sym()); }
int symsync_crcf_destroy(symsync_crcf q) { delete oracle::ob<oracle::Sym>(q); return 0; }
int symsync_crcf_reset(symsync_crcf) { return 0; }
int symsync_crcf_set_lf_bw(symsync_crcf, float) { return 0; }
int symsync_crcf_set_output_rate(symsync_crcf, unsigned) { return 0; }
int symsync_crcf_execute(symsync_crcf q, std::complex<float>* x, unsigned, std::complex<float>* y, unsigned* n) { auto* s = oracle::ob<oracle::Sym>(q); *n = s->n == 0; s->n = s->n == 2 ? 0 : s->n + 1; if (*n) y[0] = x[0]; return 0; }
modemcf modemcf_create(modulation_scheme) { return reinterpret_cast<modemcf>(new int(0)); }
int modemcf_destroy(modemcf q) { delete oracle::ob<int>(q); return 0; }
int modemcf_demodulate(modemcf, std::complex<float>, unsigned* s) { *s = 0; return 0; }
float modemcf_get_demodulator_phase_error(modemcf) { return 0; }
// repeats or drops samples
resamp_rrrf resamp_rrrf_create(float, unsigned, float, float, unsigned) { return reinterpret_cast<resamp_rrrf>(new oracle::Resamp()); }
int resamp_rrrf_destroy(resamp_rrrf q) { delete oracle::ob<oracle::Resamp>(q); return 0; }
int resamp_rrrf_set_rate(resamp_rrrf q, float r) { oracle::ob<oracle::Resamp>(q)->rate = r; return 0; }
int resamp_rrrf_execute(resamp_rrrf q, float x, float* y, unsigned* n) { auto* r = oracle::ob<oracle::Resamp>(q); r->acc += r->rate; *n = 0; while (r->acc >= 0.999999f) { y[(*n)++] = x; r->acc -= 1.f; } return 0; }
}
#endif
