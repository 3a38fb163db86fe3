#include "w_print.h"
namespace other {
void print(std::ostream& o, mdl::RD const& m) { o << m; }
void print(std::ostream& o, BlasBooster::TypeMatrix const& m) { o << m; }
void print(std::ostream& o, mdl::DD const& m) { o << m; }
void full(std::ostream& o) { o << BlasBooster::fullprint; }
void brief(std::ostream& o) { o << BlasBooster::shortprint; }
}
