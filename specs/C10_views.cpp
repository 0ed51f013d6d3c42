// contract: index boxes are products of half open intervals: Contains, Intersect, Grow, Shrink, Embed, Project, Neighborhood, Shift, LeftTo, RightTo and EmbedIndex act coordinate-wise
// contract: mdspan, PatchDataView, Subview, SliceLast and subspan address the element of the given global index
#include "vf_patch.hpp"
#include <algorithm>
#include "fub/PatchDataView.hpp"

using namespace fub;

namespace {
static const char* const LA[] = {"la0", "la1", "la2", "la3"};
static const char* const UA[] = {"ua0", "ua1", "ua2", "ua3"};
static const char* const LB[] = {"lb0", "lb1", "lb2", "lb3"};
static const char* const UB[] = {"ub0", "ub1", "ub2", "ub3"};
static const char* const IX[] = {"i0", "i1", "i2", "i3"};
static const char* const SV[] = {"", "s1", "s2", "s3"};
static const char* const EX[] = {"n0", "n1", "n2", "n3"};

constexpr long S = VF_BIG;

template <int R> IndexBox<R> box(const char* const* l, const char* const* u) {
  IndexBox<R> b;
  for (int d = 0; d < R; ++d) {
    b.lower[d] = vf_int(l[d], -S, S);
    b.upper[d] = vf_int(u[d], -S, S);
  }
  return b;
}
template <int R> Index<R> index() {
  Index<R> i;
  for (int d = 0; d < R; ++d) i[d] = vf_int(IX[d], -S, S);
  return i;
}
template <int R> bool in(const IndexBox<R>& b, const Index<R>& i) {
  bool r = true;
  for (int d = 0; d < R; ++d) r = r & (b.lower[d] <= i[d]) & (i[d] < b.upper[d]);
  return r;
}

template <int R> void boxes() {
  const auto a = box<R>(LA, UA), b = box<R>(LB, UB);
  const auto i = index<R>();
  vf_check_ieq("Contains: the box contains the index", Contains(a, i), in<R>(a, i));
  bool sub = true, same = true, positive = true;
  for (int d = 0; d < R; ++d) {
    sub = sub & (a.lower[d] <= b.lower[d]) & (b.upper[d] <= a.upper[d]);
    same = same & (a.lower[d] == b.lower[d]) & (b.upper[d] == a.upper[d]);
  }
  vf_check_ieq("Contains: the box contains the other box", Contains(a, b), sub);
  vf_check_ieq("equality", a == b, same);
  vf_check_ieq("inequality", a != b, !same);
  const auto c = Intersect(a, b);
  vf_check_ieq("Intersect: the index is in both boxes", in<R>(c, i), in<R>(a, i) & in<R>(b, i));
  for (int d = 0; d < R; ++d) positive = positive & (c.lower[d] <= c.upper[d]);
  vf_check("Intersect: an empty intersection is an empty box", positive);
  vf_cover("boxes");
}
template <int R> void resize() {
  const auto a = box<R>(LA, UA);
  const int dir = (int)vf_int("dir", 0, R - 1);
  const std::array<std::ptrdiff_t, 2> w{vf_int("w0", -S, S), vf_int("w1", -S, S)};
  const auto g = Grow(a, Direction(dir), w), s = Shrink(a, Direction(dir), w);
  const auto i = index<R>();
  const long k = vf_int("shift", -S, S);
  const auto x = Shift(i, Direction(dir), k), l = LeftTo(i, Direction(dir), k), r = RightTo(i, Direction(dir), k);
  const int width = (int)vf_int("width", 0, 1000000000);
  const auto n = Neighborhood<R>(i, width);
  const auto e = EmbedIndex(i, Direction(dir));
  for (int d = 0; d < R; ++d) {
    const long on = d == dir;
    vf_check_ieq("Grow lower", g.lower[d], a.lower[d] - on * w[0]);
    vf_check_ieq("Grow upper", g.upper[d], a.upper[d] + on * w[1]);
    vf_check_ieq("Shrink lower", s.lower[d], a.lower[d] + on * w[0]);
    vf_check_ieq("Shrink upper", s.upper[d], a.upper[d] - on * w[1]);
    vf_check_ieq("Shift", x[d], i[d] + on * k);
    vf_check_ieq("LeftTo", l[d], i[d] - on * k);
    vf_check_ieq("RightTo", r[d], i[d] + on * (k - 1));
    vf_check_ieq("Neighborhood lower", n.lower[d], i[d] - width);
    vf_check_ieq("Neighborhood upper", n.upper[d], i[d] + width + 1);
    vf_check_ieq("EmbedIndex", e[d], i[d]);
  }
  vf_check_ieq("EmbedIndex direction", e[R], dir);
  const std::array<std::ptrdiff_t, 2> lim{vf_int("l0", -S, S), vf_int("l1", -S, S)};
  const auto m = Embed<R + 1>(a, lim);
  const auto p = Project<R>(m);
  for (int d = 0; d < R; ++d) {
    vf_check_ieq("Embed lower", m.lower[d], a.lower[d]);
    vf_check_ieq("Embed upper", m.upper[d], a.upper[d]);
    vf_check_ieq("Project lower", p.lower[d], a.lower[d]);
    vf_check_ieq("Project upper", p.upper[d], a.upper[d]);
  }
  vf_check_ieq("Embed limits lower", m.lower[R], lim[0]);
  vf_check_ieq("Embed limits upper", m.upper[R], lim[1]);
  vf_cover("resize");
}

// offset of an element from the first one
template <class V, std::size_t N, std::size_t... I>
long at(const V& v, double* base, const std::array<std::ptrdiff_t, N>& i, std::index_sequence<I...>) {
  return &v(i[I]...) - base;
}
template <class V, std::size_t N> long at(const V& v, double* base, const std::array<std::ptrdiff_t, N>& i) {
  return at(v, base, i, std::make_index_sequence<N>());
}

struct Data { long lo[4], n[4]; };
template <int R> Data data() {
  Data D;
  for (int d = 0; d < R; ++d) {
    D.lo[d] = vf_int(LA[d], -S, S);
    D.n[d] = vf_int(EX[d], 1, VF_BIG);
  }
  return D;
}
template <int R> Index<R> inside(const Data& D) {
  Index<R> i;
  for (int d = 0; d < R; ++d) i[d] = vf_int(IX[d], D.lo[d], D.lo[d] + D.n[d] - 1);
  return i;
}

template <int R> void strided() {
  const Data D = data<R>();
  auto P = vf::make_patch<R>("data", SV, D.lo, D.n);
  auto v = P.view();
  const auto i = inside<R>(D);
  long o = 0, size = 1;
  for (int d = 0; d < R; ++d) {
    o += (i[d] - D.lo[d]) * P.str[d];
    size += (D.n[d] - 1) * P.str[d];
    vf_check_ieq("Stride", v.Stride(d), P.str[d]);
    vf_check_ieq("Extent", v.Extent(d), D.n[d]);
    vf_check_ieq("Origin", v.Origin()[d], D.lo[d]);
    vf_check_ieq("Box lower", v.Box().lower[d], D.lo[d]);
    vf_check_ieq("Box upper", v.Box().upper[d], D.lo[d] + D.n[d]);
  }
  vf_check_ieq("element of an index", &v(i) - P.p, o);
  vf_check_ieq("element of indices", at(v, P.p, i), o);
  StridedDataView<const double, R> c = v;
  vf_check_ieq("read only view", &c(i) - P.p, o);
  vf_check("Span covers the elements", v.Span().size() >= size);
  if constexpr (R > 1) {
    const Index<R - 1> j = [&] { Index<R - 1> j; for (int d = 0; d < R - 1; ++d) j[d] = i[d]; return j; }();
    vf_check_ieq("element of an index and a component", &v(j, (int)i[R - 1]) - P.p, o);
    // the component counts from the first one
    const auto s = SliceLast(v, (int)(i[R - 1] - D.lo[R - 1]));
    vf_check_ieq("SliceLast", &s(j) - P.p, o);
    for (int d = 0; d < R - 1; ++d) {
      vf_check_ieq("SliceLast box lower", s.Box().lower[d], D.lo[d]);
      vf_check_ieq("SliceLast box upper", s.Box().upper[d], D.lo[d] + D.n[d]);
    }
  }
  vf_cover("strided");
}

template <int R> void subview() {
  const Data D = data<R>();
  auto P = vf::make_patch<R>("data", SV, D.lo, D.n);
  const auto i = inside<R>(D);
  IndexBox<R> b;
  long o = 0;
  for (int d = 0; d < R; ++d) {
    b.lower[d] = vf_int(LB[d], D.lo[d], i[d]);
    b.upper[d] = vf_int(UB[d], i[d] + 1, D.lo[d] + D.n[d]);
    o += (i[d] - D.lo[d]) * P.str[d];
  }
  const auto s = P.view().Subview(b);
  vf_check_ieq("Subview: element of an index", &s(i) - P.p, o);
  for (int d = 0; d < R; ++d) {
    vf_check_ieq("Subview: box lower", s.Box().lower[d], b.lower[d]);
    vf_check_ieq("Subview: box upper", s.Box().upper[d], b.upper[d]);
    vf_check_ieq("Subview: stride", s.Stride(d), P.str[d]);
  }
  const auto t = P.cview().Subview(b);
  vf_check_ieq("Subview of a read only view", &t(i) - P.p, o);
  vf_cover("subview");
}

template <int R, class L> void contiguous() {
  long n[4];
  Index<R> i;
  std::array<std::ptrdiff_t, R> e;
  long str[4], size = 1;
  for (int d = 0; d < R; ++d) {
    e[d] = n[d] = vf_int(EX[d], 1, VF_BIG);
    i[d] = vf_int(IX[d], 0, n[d] - 1);
  }
  constexpr bool left = std::is_same_v<L, layout_left>;
  for (int d = 0; d < R; ++d) {
    str[left ? d : R - 1 - d] = size;
    size *= left ? n[d] : n[R - 1 - d];
  }
  const typename L::template mapping<dynamic_extents<R>> m{dynamic_extents<R>(e)};
  long o = 0;
  for (int d = 0; d < R; ++d) {
    o += i[d] * str[d];
    vf_check_ieq("stride", m.stride(d), str[d]);
  }
  const long got = std::apply([&](auto... is) { return m(is...); }, i);
  vf_check_ieq("offset", got, o);
  vf_check_ieq("required size", m.required_span_size(), size);
  vf_cover("contiguous");
}
} // namespace

#define H(name, ...) extern "C" void vf_harness_##name() { __VA_ARGS__(); }
H(boxes_1, boxes<1>)
H(boxes_2, boxes<2>)
H(boxes_3, boxes<3>)
H(boxes_4, boxes<4>)
H(resize_1, resize<1>)
H(resize_2, resize<2>)
H(resize_3, resize<3>)
H(strided_1, strided<1>)
H(strided_2, strided<2>)
H(strided_3, strided<3>)
H(strided_4, strided<4>)
H(subview_1, subview<1>)
H(subview_2, subview<2>)
H(subview_3, subview<3>)
H(subview_4, subview<4>)
H(left_1, contiguous<1, layout_left>)
H(left_2, contiguous<2, layout_left>)
H(left_3, contiguous<3, layout_left>)
H(left_4, contiguous<4, layout_left>)
H(right_1, contiguous<1, layout_right>)
H(right_2, contiguous<2, layout_right>)
H(right_3, contiguous<3, layout_right>)
