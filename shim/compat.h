#pragma once
#include <boost/variant.hpp>
#include <variant>
namespace std {
template <class T, class... Ts>
const T* get_if(const boost::variant<Ts...>* v) { return boost::get<T>(v); }
}
