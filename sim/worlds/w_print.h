// The printing of some matrices happens in another translation unit of the program.
#pragma once
#include <ostream>
#include "model.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Utilities/STLHelpers.h"
typedef BlasBooster::Matrix<BlasBooster::Dense, double, BlasBooster::Parameter<size_t, BlasBooster::ColumnMajor, BlasBooster::VariableSize, BlasBooster::LeadingDimension>> Window;
namespace other {
void print(std::ostream& o, mdl::RD const& m);
void print(std::ostream& o, BlasBooster::TypeMatrix const& m);
void print(std::ostream& o, mdl::DD const& m);
void full(std::ostream& o); void brief(std::ostream& o);
}
