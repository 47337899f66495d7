#ifndef VP_MODEL_H
#define VP_MODEL_H
// Independent reference of the band-limited synthesis: amplitude steps at times in 1/2^20 frames,
// filtered by one of the offered kernels, accumulated with the high-pass and saturated.
struct RefChannel {
  const BKBufferPulse *kernel;
  std::vector<int64_t> in;
  RefChannel(int64_t frames, const BKBufferPulse *k) : kernel(k), in((size_t)frames + 64, 0) {}
  void step(int64_t t, int64_t d) {
    int64_t f = t >> 20; int ph = (int)((t & (FU - 1)) >> 15);
    if (f < 0) return;
    for (int i = 0; i < 32; i++) if ((size_t)(f + i) < in.size()) in[(size_t)(f + i)] += (int64_t)kernel->frames[ph][i] * d;
  }
  std::vector<int> render(int64_t n, std::vector<int64_t> *level = nullptr) const {
    std::vector<int> out;
    int64_t acc = 0;
    for (int64_t i = 0; i < n; i++) {
      acc -= acc >> 9;
      acc += in[(size_t)i];
      int64_t a = acc >> 14;
      if (level) level->push_back(a);
      out.push_back((int)std::min<int64_t>(32767, std::max<int64_t>(-32768, a)));
    }
    return out;
  }
};
static inline int64_t fl(int64_t a, int s) { return a >> s; }
static inline int64_t clampi(int64_t v, int64_t lo, int64_t hi) { return std::min(std::max(v, lo), hi); }

static inline int refSquare(int duty, int phase) {
  // pulse width duty/16 of the amplitude range; above half the same pulse seen from below
  static const char *t[17] = {
    "0100000000000000", "0100000000000000", "0011000000000000", "0011100000000000", "0001111000000000", "0001111100000000",
    "0000111111000000", "0000111111100000", "0000011111111000", "0000001111111110", "0000011111111110", "0000111111111110",
    "0001111111111110", "0011111111111110", "0111111111111110", "1111111111111110", "1111111111111110"};
  return t[duty][phase] == '1' ? (duty <= 8 ? 32767 : -32767) : 0;
}
static inline int refTriangle(int p) { int q = p % 32; int m = q < 8 ? q : q < 16 ? 15 - q : q < 24 ? q - 16 : 31 - q; 
  static const int up[8] = {0, 2047, 4095, 6143, 8191, 10239, 12287, 14335};
  if (q < 16) return up[m];
  static const int dn[8] = {2047, 4095, 6143, 8191, 10239, 12287, 14335, 16383};
  return -dn[m]; }
static inline int refSaw(int p) { return 5461 * (6 - p); }
static inline int refSine(int p) {
  static const int s[32] = {0, 6392, 12539, 18204, 23169, 27244, 30272, 32137, 32767, 32137, 30272, 27244, 23169, 18204, 12539, 6392};
  int v = p < 16 ? s[p] : -s[p - 16];
  return v / 2;
}
// reference of a plain unit
struct RefUnit {
  int nch = 1;
  int wave = 0, count = 16;
  unsigned phase = 0, wrap = 0, wrapCount = 0;
  int duty = 2;
  int64_t period = 0;
  int vol[8] = {0}, mute = 0;
  int64_t last[8] = {0};
  int64_t time = 0;
  std::vector<int> custom;
  std::vector<RefChannel> *out = nullptr;

  void setWave(int w) {
    count = w == BK_TRIANGLE ? 32 : w == BK_NOISE ? 8 : w == BK_SAWTOOTH ? 7 : w == BK_SINE ? 32 : 16;
    if (w != wave) { wave = w; phase = 0; }
  }
  int amp() {
    switch (wave) {
      case BK_SQUARE: { int a = refSquare(duty, (int)phase); phase = (phase + 1) % 16; return a; }
      case BK_TRIANGLE: { int a = refTriangle((int)phase); phase = (phase + 1) % 32; return a; }
      case BK_SINE: { int a = refSine((int)phase); phase = (phase + 1) % 32; return a; }
      case BK_SAWTOOTH: { int a = refSaw((int)phase); phase = (phase + 1) % 7; return a; }
      case BK_NOISE: {
        if (!phase) phase = 0x4a41;
        if (wrap && --wrapCount == 0) { wrapCount = wrap; phase = 0x4a41; }
        int bit = (phase ^ (phase >> 2) ^ (phase >> 3) ^ (phase >> 5)) & 1;
        phase = (phase >> 1) | (unsigned)(bit << 15);
        return bit ? 16383 : -16383;
      }
      default: {
        if (wrap && --wrapCount == 0) { wrapCount = wrap; phase = 0; }
        int a = custom[phase];
        if (++phase >= (unsigned)count) phase = 0;
        return a;
      }
    }
  }
  void run(int64_t end) {
    bool any = false;
    for (int i = 0; i < nch; i++) any |= vol[i] != 0;
    if (period && wave) {
      if (mute || !any) { time = end; return; }
      for (; time < end; time += period) {
        int a = amp();
        for (int i = 0; i < nch; i++) if (vol[i]) {
          int64_t d = fl((int64_t)a * vol[i], 15);
          (*out)[i].step(time, d - last[i]);
          last[i] = d;
        }
      }
    }
    time = std::max(time, end);
  }
};
#endif
