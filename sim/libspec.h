// What library scenarios mean; shared by the runner, the generator and checks.
#ifndef SIM_LIBSPEC_H_
#define SIM_LIBSPEC_H_
#include <algorithm>
#include <string>
#include <vector>

#include "rt.h"
#include "scen.h"

namespace sim {

struct LibArgs { const Scenario *s; int what; int only; };

// A code stands for an event with a box; kBoxCodes distinct ones.
struct CodeBox { int64_t q, d; uint32_t x, y, w, h; };
static const int64_t kBoxCodes = 3 * 2 * 5 * 3 * 4 * 4;
static const int64_t kDense = 2000000;   // and from here on one of a dense field of boxes
inline CodeBox DecodeBox(int64_t c) {
  CodeBox b;
  if (c >= kDense) {
    c -= kDense;
    b.q = c % 3; c /= 3;
    b.d = c % 2; c /= 2;
    b.x = (uint32_t)(c % 300) * 4;
    b.y = (uint32_t)(c / 300) * 4;
    b.w = 4 + (uint32_t)(c % 3);
    b.h = 5;
    return b;
  }
  if (c >= 1000000) {                  // probe covering everything of a query and document
    c -= 1000000;
    b.q = c % 3;
    b.d = c / 3 % 2;
    b.x = b.y = 0;
    b.w = b.h = 100;
    return b;
  }
  c %= kBoxCodes;
  static const uint32_t side[4] = {4, 6, 10, 0};
  b.q = c % 3; c /= 3;
  b.d = c % 2; c /= 2;
  b.x = (uint32_t)(c % 5) * 4; c /= 5;
  b.y = (uint32_t)(c % 3) * 4; c /= 3;
  b.w = side[c % 4]; c /= 4;
  b.h = side[c % 4];
  return b;
}
inline int64_t BigProbe(int64_t k) { return 1000000 + k % 6; }
inline int64_t CodeOverlap(int64_t a, int64_t b) {
  CodeBox p = DecodeBox(a), r = DecodeBox(b);
  if (p.q != r.q || p.d != r.d) return 0;
  int64_t w = (int64_t)std::min(p.x + p.w, r.x + r.w) - (int64_t)std::max(p.x, r.x);
  int64_t h = (int64_t)std::min(p.y + p.h, r.y + r.h) - (int64_t)std::max(p.y, r.y);
  return w > 0 && h > 0 ? w * h : 0;
}
// Every third name is long enough to live on the heap.
inline std::string CodeName(const char *pre, int64_t k) {
  std::string s = pre + std::to_string(k);
  if (k % 3 == 1) s += "-with-a-name-too-long-for-the-small-buffer";
  return s;
}
// C27: operations {reader, list, delivery, fault at, alloc, sticky, ending, chunk, records...}; readers 0 boxes, 1 scored boxes,
// 2 mapped names, 3 mapped scored names, 4 copy a reader, 5 assign to a reader.
struct ReadRec { bool good; bool malformed; std::string a, b, text; CodeBox box; float score; };
ReadRec DecodeRead(int reader, int64_t code);
std::string ReadText(const std::vector<int64_t> &op);
std::string ReadFileName(size_t step);
std::string JobFile(size_t job, int kind);
const char *BenchFile(int64_t k);

}  // namespace sim
extern "C" int lib_main(void *arg);
#endif
