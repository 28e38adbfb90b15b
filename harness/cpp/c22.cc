#include <cstdint>
#include <cstddef>
#include <string>
#include <ostream>
#include "support/rs_std/lossy_formatter_for_bindings.h"
#include "support/internal/fmt.h"
struct COp { int kind; uint8_t byte; size_t count; const uint8_t* data; };
struct Ostreamed { const COp* ops; size_t n; };
struct Absled { const COp* ops; size_t n; };
std::ostream& operator<<(std::ostream& os, const Ostreamed& v) {
  for (size_t i = 0; i < v.n; i++) {
    const COp& o = v.ops[i];
    if (o.kind == 0) os.write(reinterpret_cast<const char*>(o.data), o.count);
    else if (o.kind == 1) os.put(static_cast<char>(o.byte));
    else if (o.kind == 2) os << std::string(o.count, static_cast<char>(o.byte));
    else os.flush();
  }
  return os;
}
template <typename Sink> void AbslStringify(Sink& s, const Absled& v) {
  for (size_t i = 0; i < v.n; i++) {
    const COp& o = v.ops[i];
    if (o.kind == 0) s.Append(std::string_view(reinterpret_cast<const char*>(o.data), o.count));
    else if (o.kind == 1) s.Append(std::string_view(reinterpret_cast<const char*>(&o.byte), 1));
    else if (o.kind == 2) s.Append(o.count, static_cast<char>(o.byte));
  }
}
extern "C" bool cpp_fmt(lossy_formatter::LossyFormatter* f, const COp* ops, size_t n, int kind) {
  if (kind == 0) return crubit::Fmt(Ostreamed{ops, n}, *f);
  return crubit::Fmt(Absled{ops, n}, *f);
}
extern "C" void verif_main();
int main() { verif_main(); }
