// A public header on its own, in a translation unit of its own.
#include HV_HEADER
int HV_SYMBOL() {
    int n = 0;
    boost::coroutines2::detail::pull_coroutine<int> p([](boost::coroutines2::detail::push_coroutine<int>& y) { y(1); y(2); });
    for (int v : p) n += v;
    boost::coroutines2::detail::push_coroutine<int&> q([](boost::coroutines2::detail::pull_coroutine<int&>& c) { ++c.get(); });
    q(n);
    boost::coroutines2::detail::pull_coroutine<void> r([&](boost::coroutines2::detail::push_coroutine<void>& y) { ++n; y(); });
    return n;
}
#ifdef HV_ALL
int h_all(); int h_coroutine(); int h_fixed(); int h_pooled(); int h_protected(); int h_segmented();
namespace hv { bool headers_alone() { return h_all() == 5 && h_coroutine() == 5 && h_fixed() == 5 && h_pooled() == 5 && h_protected() == 5 && h_segmented() == 5; } }
#endif
