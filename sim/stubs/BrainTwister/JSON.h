// Stand-in for the (absent, network-only) BrainTwister/JSON package: text to property tree.
// Text that is no JSON object is reported by an exception.
#pragma once
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <sstream>
#include <string>

struct JSON : boost::property_tree::ptree {
    explicit JSON(std::string const& text) { std::istringstream is(text); is.exceptions(std::ios_base::badbit); boost::property_tree::read_json(is, static_cast<boost::property_tree::ptree&>(*this)); }
};
