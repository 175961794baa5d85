#include "core.h"
namespace vh {
extern const Prop kParseProps[]; extern const int kParsePropsN;
extern const Prop kMatchProps[]; extern const int kMatchPropsN;
extern const Prop kValueProps[]; extern const int kValuePropsN;
extern const Prop kFaultProps[]; extern const int kFaultPropsN;
extern const Prop kOomProps[]; extern const int kOomPropsN;
extern const Prop kThreadProps[]; extern const int kThreadPropsN;
extern const Prop kExtractProps[]; extern const int kExtractPropsN;
const std::vector<Prop>& props() {
  static const std::vector<Prop> v = [] {
    std::vector<Prop> p;
    auto add = [&](const Prop* x, int n) { p.insert(p.end(), x, x + n); };
    add(kParseProps, kParsePropsN);
    add(kMatchProps, kMatchPropsN);
    add(kExtractProps, kExtractPropsN);
    add(kThreadProps, kThreadPropsN);
    add(kValueProps, kValuePropsN);
    add(kFaultProps, kFaultPropsN);
    add(kOomProps, kOomPropsN);
    return p;
  }();
  return v;
}
}
