#include <memory>
#include <string>
#include <boost/coroutine2/all.hpp>
using boost::coroutines2::coroutine;
template<class T, class V> void f(V v) {
    typename coroutine<T>::pull_type p([&](typename coroutine<T>::push_type & s) { s(v); });
    p();
    typename coroutine<T>::push_type q([](typename coroutine<T>::pull_type & s) { s(); (void)s.get(); for (auto & x : s) (void)x; });
    q(v); p = std::move(p); q = std::move(q);
    begin(q) != end(q); begin(p) == end(p);
}
int main() {
    f<int>(1); f<std::string>(std::string()); std::string s; 
    coroutine<std::string&>::pull_type p([&](coroutine<std::string&>::push_type & k) { k(s); });
    coroutine<std::string&>::push_type q([&](coroutine<std::string&>::pull_type & k) { k(); }); q(s);
    coroutine<void>::pull_type v([](coroutine<void>::push_type & k) { k(); }); v();
    coroutine<void>::push_type w([](coroutine<void>::pull_type & k) { k(); }); w();
    coroutine<std::unique_ptr<int>>::push_type u([](coroutine<std::unique_ptr<int>>::pull_type & k) { k(); }); u(std::unique_ptr<int>());
}
