#include "common.h"
#include <cstring>
#include "common/DataConvert.h"
using namespace dp3::common;
// exact-size heap buffers, so that the sanitizer sees any stray access
struct Buf {
  explicit Buf(const json& a) : n(a.size()), p(new unsigned char[a.size()]) {
    for (size_t i = 0; i < n; ++i) p[i] = static_cast<unsigned char>(int(a[i]));
  }
  ~Buf() { delete[] p; }
  json Out() const { json a = json::array(); for (size_t i = 0; i < n; ++i) a.push_back(int(p[i])); return a; }
  size_t n; unsigned char* p;
};
template <class T> static void Val(Buf& b) { T v; std::memcpy(&v, b.p, sizeof v); v = byteSwap(v); std::memcpy(b.p, &v, sizeof v); }
template <class T> static void ValC(Buf& b) { T v; std::memcpy(&v, b.p, sizeof v); v = dataConvert(BigEndian, v); std::memcpy(b.p, &v, sizeof v); }
template <class T> static void Arr(Buf& b, unsigned n) {
  std::vector<T> v(b.n / sizeof(T) + 1);
  std::memcpy(v.data(), b.p, b.n);
  dataConvert(BigEndian, v.data(), n);
  std::memcpy(b.p, v.data(), b.n);
}
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") return;
  if (op == "swap") {
    const int w = ev["w"]; const unsigned n = ev["n"]; const std::string how = ev["how"];
    Buf b(ev["in"]);
    ev["kept"] = false;
    if (how == "inplace") {
      if (w == 2) byteSwap16(b.p, n); if (w == 4) byteSwap32(b.p, n); if (w == 8) byteSwap64(b.p, n);
    } else if (how == "one") {
      if (w == 2) byteSwap16(b.p); if (w == 4) byteSwap32(b.p); if (w == 8) byteSwap64(b.p);
    } else if (how == "copy" || how == "copy1") {
      Buf src(ev["in"]);
      if (how == "copy") {
        if (w == 2) dataConvert16(BigEndian, b.p, src.p, n); if (w == 4) dataConvert32(BigEndian, b.p, src.p, n); if (w == 8) dataConvert64(BigEndian, b.p, src.p, n);
      } else {
        if (w == 2) byteSwap16(b.p, src.p); if (w == 4) byteSwap32(b.p, src.p); if (w == 8) byteSwap64(b.p, src.p);
      }
      ev["kept"] = true; ev["src"] = src.Out();
    } else if (how == "float") {
      if (w == 4) dataConvertFloat(BigEndian, b.p, n); if (w == 8) dataConvertDouble(BigEndian, b.p, n);
    } else if (how == "floatcopy") {
      Buf src(ev["in"]);
      if (w == 4) dataConvertFloat(BigEndian, b.p, src.p, n); if (w == 8) dataConvertDouble(BigEndian, b.p, src.p, n);
      ev["kept"] = true; ev["src"] = src.Out();
    } else if (how == "vals") { if (w == 2) Val<int16_t>(b); if (w == 4) Val<int32_t>(b); if (w == 8) Val<int64_t>(b);
    } else if (how == "valu") { if (w == 2) ValC<uint16_t>(b); if (w == 4) ValC<uint32_t>(b); if (w == 8) ValC<uint64_t>(b); if (w == 1) ValC<uint8_t>(b);
    } else if (how == "arrs") { if (w == 1) Arr<int8_t>(b, n); if (w == 2) Arr<int16_t>(b, n); if (w == 4) Arr<int32_t>(b, n); if (w == 8) Arr<int64_t>(b, n);
    } else if (how == "arru") { if (w == 1) Arr<uint8_t>(b, n); if (w == 2) Arr<uint16_t>(b, n); if (w == 4) Arr<uint32_t>(b, n); if (w == 8) Arr<uint64_t>(b, n);
    } else if (how == "arrf") { if (w == 1) Arr<char>(b, n); if (w == 4) Arr<float>(b, n); if (w == 8) Arr<double>(b, n);
    } else if (how == "arrc") { if (w == 4) Arr<std::complex<float>>(b, n / 2); if (w == 8) Arr<std::complex<double>>(b, n / 2); }
    ev["out"] = b.Out();
  } else if (op == "pack") {
    Buf b(ev["buf"]), v(ev["v"]);
    ev["ret"] = boolToBit(b.p, v.p, unsigned(v.n), unsigned(ev["start"]));
    ev["out"] = b.Out();
  } else if (op == "unpack") {
    Buf b(ev["buf"]);
    const unsigned n = ev["n"];
    Buf v(json(std::vector<int>(n, 7)));
    ev["ret"] = bitToBool(v.p, b.p, n, unsigned(ev["start"]));
    ev["v"] = v.Out();
    ev["src"] = b.Out();
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
