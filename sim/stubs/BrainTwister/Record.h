// Stand-in for the (absent, network-only) BrainTwister/Record package.
// BRAINTWISTER_RECORD(Name, ((type, name, default)) ...) declares a plain record:
// default constructor, constructor from a property tree (missing entry -> default),
// fluent set_<name>() and operator==.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/serialization/base_object.hpp> // the real package brings this in; DenseMatrix.h relies on it
#include <cstdlib>
#include <string>
#include <type_traits>
#include <vector>

namespace BrainTwister { namespace stub {

using boost::property_tree::ptree;

template <class T, class = void> struct Load {
    static T get(ptree const& t, char const* name, T const& def) {
        auto c = t.get_child_optional(name);
        return c ? parse(c->data(), def) : def;
    }
    // a stream would take a failed allocation for an unreadable number
    static std::string parse(std::string const& text, std::string const&) { return text; }
    template <class N> static N parse(std::string const& text, N const& def) {
        static_assert(std::is_arithmetic<N>::value && !std::is_same<N, bool>::value, "not needed so far");
        char* end = nullptr; char const* s = text.c_str(); N v;
        if (std::is_floating_point<N>::value) v = N(std::strtod(s, &end)); else v = N(std::strtoll(s, &end, 10));
        return end != s && !*end ? v : def;
    }
};
template <class> struct Void { typedef void type; };
template <class T> struct Load<T, typename Void<typename T::is_record>::type> {
    static T get(ptree const& t, char const* name, T const& def) {
        auto c = t.get_child_optional(name);
        return c ? T(*c) : def;
    }
};
template <class T> struct Load<std::vector<T>, void> {
    static std::vector<T> get(ptree const& t, char const* name, std::vector<T> const& def) {
        auto c = t.get_child_optional(name);
        if (!c) return def;
        std::vector<T> r;
        for (auto const& item : *c) r.push_back(T(item.second));
        return r;
    }
};

}} // namespace BrainTwister::stub

#define BT_STUB_MEMBER(r, Name, tup) BOOST_PP_TUPLE_ELEM(3, 0, tup) BOOST_PP_TUPLE_ELEM(3, 1, tup) = BOOST_PP_TUPLE_ELEM(3, 2, tup);
#define BT_STUB_LOAD(r, tree, tup) BOOST_PP_TUPLE_ELEM(3, 1, tup) = \
    BrainTwister::stub::Load<BOOST_PP_TUPLE_ELEM(3, 0, tup)>::get(tree, BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3, 1, tup)), BOOST_PP_TUPLE_ELEM(3, 1, tup));
#define BT_STUB_SET(r, Name, tup) \
    Name& BOOST_PP_CAT(set_, BOOST_PP_TUPLE_ELEM(3, 1, tup))(BOOST_PP_TUPLE_ELEM(3, 0, tup) const& v) { BOOST_PP_TUPLE_ELEM(3, 1, tup) = v; return *this; }
#define BT_STUB_EQ(r, other, tup) && BOOST_PP_TUPLE_ELEM(3, 1, tup) == other.BOOST_PP_TUPLE_ELEM(3, 1, tup)

#define BRAINTWISTER_RECORD(Name, Seq) \
    struct Name { \
        typedef void is_record; \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_MEMBER, Name, Seq) \
        Name() {} \
        explicit Name(boost::property_tree::ptree const& tree_) { (void)tree_; BOOST_PP_SEQ_FOR_EACH(BT_STUB_LOAD, tree_, Seq) } \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_SET, Name, Seq) \
        bool operator == (Name const& other_) const { return true BOOST_PP_SEQ_FOR_EACH(BT_STUB_EQ, other_, Seq); } \
    };
