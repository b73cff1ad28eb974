// Verification interface shared by every harness: symbolic inputs and observed results.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <tuple>
extern "C" {
double vp_real(int id);
void vp_res(int slot, int element, double value);
void vp_slots(int n);
}
namespace vp
{
template <typename A, typename T, gal::elem_t... E, std::size_t... I>
inline void dump_e(int slot, gal::entity<A, T, E...> const& r, std::index_sequence<I...>)
{
    (vp_res(slot, static_cast<int>(E), static_cast<double>(r[I])), ...);
}
template <typename A, typename T, gal::elem_t... E>
inline int dump(int slot, gal::entity<A, T, E...> const& r)
{
    dump_e(slot, r, std::make_index_sequence<sizeof...(E)>{});
    return slot + 1;
}
template <typename... R, std::size_t... I>
inline int dump_t(int slot, std::tuple<R...> const& r, std::index_sequence<I...>)
{
    (dump(slot + static_cast<int>(I), std::get<I>(r)), ...);
    return slot + static_cast<int>(sizeof...(R));
}
template <typename... R>
inline int dump(int slot, std::tuple<R...> const& r)
{
    return dump_t(slot, r, std::index_sequence_for<R...>{});
}
template <typename R>
inline void result(R const& r)
{
    vp_slots(dump(0, r));
}
} // namespace vp
