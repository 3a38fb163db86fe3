// Stand-in for the (absent, network-only) clara command line parser: the part that the tools use.
#pragma once
#include <functional>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>

namespace clara {

struct Args { std::vector<std::string> v; Args(int argc, char** argv) : v(argv + 1, argv + argc) {} };

struct Result {
    bool ok; std::string text;
    explicit operator bool() const { return ok; }
    std::string errorMessage() const { return text; }
};

struct Item {
    std::vector<std::string> names; std::string hint, text; bool flag = false, needed = false;
    std::function<bool(std::string const&)> set;
    Item& operator[](std::string const& n) { names.push_back(n); return *this; }
    Item& operator()(std::string const& t) { text = t; return *this; }
    Item& required() { needed = true; return *this; }
    Item& optional() { needed = false; return *this; }
};
template <class T> std::function<bool(std::string const&)> setter(T& ref) { return [&ref](std::string const& s) { std::istringstream is(s); is >> ref; return !is.fail(); }; }
inline std::function<bool(std::string const&)> setter(std::string& ref) { return [&ref](std::string const& s) { ref = s; return true; }; }

struct Opt : Item {
    explicit Opt(bool& ref) { flag = true; set = [&ref](std::string const&) { return ref = true; }; }
    template <class T> Opt(T& ref, std::string const& h) { hint = h; set = setter(ref); }
};
struct Arg : Item { template <class T> Arg(T& ref, std::string const& h) { hint = h; set = setter(ref); } };
struct Help : Item { explicit Help(bool& ref) { flag = true; set = [&ref](std::string const&) { return ref = true; }; names = {"-?", "-h", "--help"}; text = "display usage information"; } };

struct Parser {
    std::vector<Item> items;
    Result parse(Args const& a) const
    {
        bool help = false; std::vector<bool> seen(items.size(), false);
        for (size_t i = 0; i < a.v.size(); ++i) {
            std::string t = a.v[i], value; bool has = false, known = false;
            if (t.size() > 1 && t[0] == '-') {
                size_t e = t.find_first_of("=:"); if (e != std::string::npos) { value = t.substr(e + 1); t.resize(e); has = true; }
                for (size_t k = 0; k < items.size() && !known; ++k) for (auto const& n : items[k].names) if (n == t) {
                    known = true; seen[k] = true;
                    if (items[k].flag) { items[k].set(""); if (items[k].names[0] == "-?") help = true; }
                    else { if (!has) { if (++i == a.v.size()) return {false, "Expected argument following " + t}; value = a.v[i]; }
                        if (!items[k].set(value)) return {false, "Unable to convert '" + value + "' to destination type"}; }
                    break; }
            } else for (size_t k = 0; k < items.size() && !known; ++k) if (items[k].names.empty() && !seen[k]) { known = seen[k] = true; if (!items[k].set(t)) return {false, "Unable to convert '" + t + "' to destination type"}; }
            if (!known) return {false, "Unrecognised token: " + t};
            if (help) return {true, ""};
        }
        for (size_t k = 0; k < items.size(); ++k) if (items[k].needed && !seen[k]) return {false, "Expected argument: " + items[k].hint};
        return {true, ""};
    }
};
inline Parser operator|(Item const& a, Item const& b) { Parser p; p.items = {a, b}; return p; }
inline Parser operator|(Parser p, Item const& b) { p.items.push_back(b); return p; }
inline std::ostream& operator<<(std::ostream& os, Parser const& p) { os << "usage:\n"; for (auto const& i : p.items) { for (auto const& n : i.names) os << "  " << n; os << " <" << i.hint << ">  " << i.text << "\n"; } return os; }

} // namespace clara
